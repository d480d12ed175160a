"""P20: failed or hostile downloads never pass for valid data."""
import gzip
import os
import tarfile

import requests
import yaml
from urllib3.exceptions import ProtocolError, ReadTimeoutError

from pyspectral import rayleigh, rsr_reader, utils
from vp import data, tables, watch
from vp.core import Suite
from vp.net import fake_net, tarball

SUITE = Suite(
    "P20", "fault_enumeration",
    "A case injects one fault into the download of an archive with random members (HTTP status, connection failure or cut at a "
    "random byte, damaged bytes, truncated or foreign content, hostile member names, failing n-th file operation, full file system, "
    "kill at a random executed line) over a data directory holding older and unrelated files, judges the directory afterwards and "
    "then lets a later, undisturbed attempt run; distinct by (fault, position, archive).",
    needs=["http_errors", "cuts", "damaged", "not_archives", "op_faults_hit", "full_disk_hit", "kills_hit", "hostile_members",
           "hostile_links", "failures_reported", "successes", "recoveries", "bystanders", "temp_gone", "lut_downloads", "rsr_downloads",
           "kill_after_start", "republished", "kill_midway_left"],
    assumptions=["The archive carries the current version file, as the published ones do.",
                 "The data directory is out of date when the download starts.",
                 "A successful transfer delivers the published bytes or a gzip stream whose checksum does not match them."])


class Setup:
    """A data directory, an archive and what should come of it."""

    def __init__(self, mon, rng, scratch, big=False):
        self.mon, self.rng, self.scratch = mon, rng, scratch
        self.lut = bool(rng.integers(3) == 0)
        base = scratch / "a" / "b" / "c"
        self.rsr_dir = base / "rsr"
        self.ray_dir = base / "ray"
        for d in (self.rsr_dir, self.ray_dir):
            d.mkdir(parents=True)
        if self.lut:
            self.aer = str(rng.choice(list(tables.AEROSOLS)))
            info = tables.AEROSOLS[self.aer]
            self.url, self.verfile, self.version = info["url"], info["filename"], info["version"]
            self.dest = self.ray_dir / self.aer
            if rng.integers(2):
                self.dest.mkdir()
            mon.ev("lut_downloads")
        else:
            self.url, self.verfile, self.version = tables.RSR_URL, tables.RSR_VERSION_FILE, tables.RSR_VERSION
            self.dest = self.rsr_dir
            mon.ev("rsr_downloads")
        conf = {"rsr_dir": str(self.rsr_dir), "rayleigh_dir": str(self.ray_dir), "download_from_internet": True}
        (base / "conf.yaml").write_text(yaml.safe_dump(conf))
        os.environ["PSP_CONFIG_FILE"] = str(base / "conf.yaml")
        n = int(rng.integers(1, 6))
        self.members = []
        for i in range(n):
            size = int(rng.choice([0, 1, 300, 511, 512, 513, 9000, 40000] if not big else [20000, 60000, 200000]))
            body = bytes(rng.bytes(size)) if rng.integers(2) else (b"spectral%d" % i * (size // 5 + 1))[:size]
            name = f"rsr_i{i}_P-{i}.h5" if not self.lut else f"rayleigh_lut_{i}.h5"
            if rng.integers(5) == 0:
                name = "sub/" + name
            elif rng.integers(5) == 0:
                name = "./" + name
            self.members.append((name, body))
        self.members.insert(int(rng.integers(0, n + 1)),
                            (("./" if rng.integers(6) == 0 else "") + self.verfile, (self.version + "\n").encode()))
        # what is there already: older versions of some members, files of others, an older version
        self.bystander = {}
        if self.dest.exists():
            for name, body in self.members:
                path = self.dest / name
                if rng.integers(3) == 0 and not name.endswith(self.verfile):
                    path.parent.mkdir(parents=True, exist_ok=True)
                    path.write_bytes(b"old " + body[:100])
            if rng.integers(2):
                (self.dest / self.verfile).write_text(str(rng.choice(["v0.0.1\n", "v0.9\n", ""])))
            for name in ("rsr_mine_Sat-1.h5", "notes.txt"):
                if rng.integers(2):
                    self.bystander[self.dest / name] = rng.bytes(100)
        self.bystander[scratch / "a" / "canary"] = b"canary"
        self.bystander[base / "canary"] = b"canary2"
        for path, body in self.bystander.items():
            path.write_bytes(body)
        self.archive = tarball(self.members)
        self.how = int(rng.integers(3))

    def call(self):
        """The call that downloads."""
        if self.lut:
            if self.how == 0:
                return rayleigh.check_and_download(aerosol_types=[self.aer])
            if self.how == 1:
                return utils.download_luts(aerosol_types=[self.aer])
            return rayleigh.Rayleigh("NOAA-20", "viirs", aerosol_type=self.aer)
        if self.how == 0:
            return rsr_reader.check_and_download()
        if self.how == 1:
            return utils.download_rsr()
        return rsr_reader.check_and_download(dest_dir=str(self.dest))

    def attempt(self, spec):
        """Download with this answer of the server; tell whether the call succeeded."""
        with fake_net({self.url: spec, "https://elsewhere.example/x.tgz": self.archive}) as net:
            try:
                self.call()
                return True, None, net
            except Exception as err:
                return False, err, net

    def up_to_date(self):
        """Does the directory claim to be up to date, as pyspectral sees it?"""
        if self.lut:
            return bool(rayleigh.RayleighConfigBaseClass(self.aer).lutfiles_version_uptodate)
        with fake_net() as net:
            try:
                rsr_reader.check_and_download()
            except Exception:
                pass
        return not net.requests

    def complete(self):
        """Names of members that are not in place with their exact content."""
        bad = []
        for name, body in self.members:
            path = self.dest / name
            if not path.is_file() or path.read_bytes() != body:
                bad.append(name)
        return bad

    def judge(self, ok, err=None, killed=False, outcome="any"):
        """The verdicts after an attempt."""
        mon = self.mon
        mon.ctx(error=repr(err), members=[(n, len(b)) for n, b in self.members], lut=self.lut, how=self.how)
        bad = self.complete()
        claim = self.up_to_date()
        if ok:
            mon.check(outcome != "fail", "the call reports the failure")
            mon.check(not bad, "after success every member is in place with its exact content", bad=bad)
            left = [str(p.relative_to(self.dest)) for p in self.dest.rglob("*") if p.is_file()]
            known = {os.path.normpath(n) for n, _ in self.members} | {p.name for p in self.bystander}
            mon.check(set(left) <= known, "the temporary archive is gone after success", left=sorted(set(left) - known))
            mon.check(claim, "after success the directory is up to date")
            mon.ev("successes")
            mon.ev("temp_gone")
        else:
            mon.check(outcome != "success", "an undisturbed download succeeds", error=repr(err))
            mon.check(not (claim and bad), "a failed download does not claim to be up to date", bad=bad)
            if not killed:
                mon.ev("failures_reported")
        for path, body in self.bystander.items():
            mon.check(path.is_file() and path.read_bytes() == body, "other files stay intact", path=str(path))
            mon.ev("bystanders")
        return claim

    def recover(self):
        """A later, undisturbed attempt."""
        claim = self.up_to_date()
        if not claim and self.rng.integers(2):
            # meanwhile other data were published
            self.members = [(n, b if n.endswith(self.verfile) else b[::-1] + b"new" * int(self.rng.integers(0, 3000)))
                            for n, b in self.members]
            self.archive = tarball(self.members)
            self.mon.ev("republished")
        if self.how == 2 and not self.lut and self.dest == self.rsr_dir:
            self.how = 0
        ok, err, net = self.attempt(self.archive)
        if claim and self.how != 1:
            self.mon.check(ok and not net.requests, "nothing to do when up to date", error=repr(err))
        else:
            self.mon.check(ok and net.urls == [self.url], "a later attempt downloads again and succeeds", error=repr(err), urls=net.urls)
        self.mon.check(not self.complete(), "a later attempt puts every member in place", bad=self.complete())
        self.mon.check(self.up_to_date(), "up to date after the later attempt")
        self.mon.ev("recoveries")


@SUITE.case(quick=1200, thorough=15000)
def transport(mon, rng, scratch):
    """Faults of the transfer."""
    setup = Setup(mon, rng, scratch)
    arc = setup.archive
    kind = int(rng.integers(8))
    outcome = "fail"
    pos = int(rng.integers(0, len(arc)))
    if rng.integers(4) == 0:
        pos = int(rng.choice([0, 1, 2, 9, 10, 17, len(arc) - 1, len(arc) - 8, len(arc) - 9]))
    if kind == 0:
        status = int(rng.choice([400, 401, 403, 404, 408, 410, 429, 500, 502, 503, 504]))
        spec = {"status": status, "body": arc if rng.integers(2) else b"<html>error</html>"}
        mon.ev("http_errors")
        pos = status
    elif kind == 1:
        spec = [requests.ConnectionError("refused"), requests.Timeout("slow"), requests.exceptions.SSLError("bad"),
                ConnectionResetError(104, "reset"), requests.TooManyRedirects("loop")][rng.integers(5)]
        mon.ev("http_errors")
        pos = type(spec).__name__
    elif kind == 2:
        spec = {"body": arc, "fail_at": pos, "pieces": int(rng.integers(1, 9000))}     # fewer bytes than announced
        mon.ev("cuts")
    elif kind == 3:
        err = [ConnectionResetError(104, "reset"), ProtocolError("broken"), ReadTimeoutError(None, "u", "t")][rng.integers(3)]
        spec = {"body": arc, "fail_at": pos, "error": err, "pieces": int(rng.integers(1, 9000)), "length": bool(rng.integers(2))}
        mon.ev("cuts")
    elif kind == 4:
        spec = {"body": arc[:pos], "length": False}                                    # truncated, no size announced
        mon.ev("cuts")
        if pos >= len(arc) - 22:
            outcome = "any"     # everything but the checksum
    elif kind == 5:
        pos = int(rng.integers(10, len(arc)))
        body = bytearray(arc)
        for k in range(int(rng.integers(1, 4))):
            i = (pos + int(rng.integers(0, 30)) * k) % len(arc)
            body[max(i, 10)] ^= 1 << int(rng.integers(8))
        spec = bytes(body)
        # a damaged byte need not make a difference (unused bits of the compressed stream)
        outcome = "any"
        mon.ev("damaged")
    elif kind == 6:
        spec = [b"", b"<html>sorry</html>" * 50, gzip.compress(b"no tar" * 400), bytes(rng.bytes(5000)), arc[5:]][rng.integers(5)]
        mon.ev("not_archives")
    else:
        spec = {"body": arc, "pieces": int(rng.integers(1, 4000)), "length": bool(rng.integers(2))}
        if rng.integers(2):
            spec = {"status": 302, "headers": {"location": "https://elsewhere.example/x.tgz"}, "body": b""}
        outcome = "success"
    mon.ctx(kind=kind, pos=pos)
    ok, err, _ = setup.attempt(spec)
    setup.judge(ok, err, outcome=outcome)
    setup.recover()
    return (kind, pos, len(arc), setup.how, setup.lut)


@SUITE.case(quick=800, thorough=9000)
def file_operations(mon, rng, scratch):
    """The n-th file operation fails."""
    setup = Setup(mon, rng, scratch)
    n = int(rng.integers(1, 6 + 4 * len(setup.members)))
    err = [PermissionError(13, "denied"), OSError(5, "input/output error"), OSError(30, "read-only"), OSError(117, "bad")][rng.integers(4)]
    with watch.Audit(fail_at=n, error=err, only_under=str(scratch), reads=False) as audit:
        ok, exc, _ = setup.attempt(setup.archive)
    mon.ctx(fail_at=n, failed=audit.failed, injected=repr(err))
    if audit.failed:
        mon.ev("op_faults_hit")
        mon.seen("failed_operation", (audit.failed[0], os.path.basename(audit.failed[1])[:6]))
    setup.judge(ok, exc, outcome="any" if audit.failed else "success")
    setup.recover()
    return (n, audit.failed and audit.failed[0], len(setup.members), setup.how, setup.lut)


@SUITE.case(quick=200, thorough=4000)
def full_disk(mon, rng, scratch):
    """Files cannot grow beyond a limit."""
    setup = Setup(mon, rng, scratch, big=True)
    largest = max([len(b) for _, b in setup.members] + [len(setup.archive)])
    limit = int(rng.integers(1, largest + 2000)) if rng.integers(4) else int(rng.integers(1, 5000))
    status, res, _ = watch.in_child(lambda: setup.attempt(setup.archive)[:2], fsize=limit)
    mon.ctx(limit=limit, status=status, res=res)
    mon.check(status == "ok", "the attempt ends", status=status)
    ok, exc = res
    if limit < largest:
        mon.ev("full_disk_hit")
    setup.judge(ok, exc, outcome="fail" if limit < largest else "success")
    setup.recover()
    return (limit, largest, setup.how, setup.lut)


@SUITE.case(quick=500, thorough=5000)
def killed(mon, rng, scratch):
    """The process is killed at a random executed line."""
    setup = Setup(mon, rng, scratch)
    far = int(rng.choice([200, 1500, 6000, 6000, 6000]))
    at = int(rng.integers(1, far))
    status, res, lines = watch.in_child(lambda: setup.attempt(setup.archive)[:2], kill_at=at)
    mon.ctx(at=at, status=status)
    if status == "killed":
        mon.ev("kills_hit")
        started = setup.dest.exists() and any(p.suffix == ".tgz" for p in setup.dest.iterdir())
        mon.ev("kill_after_start", int(started))
        setup.judge(False, None, killed=True)
    else:
        ok, exc = res
        setup.judge(ok, exc, outcome="success")
    setup.recover()
    return (at, status, len(setup.members), setup.how, setup.lut)


@SUITE.case(quick=120, thorough=1500)
def killed_midway(mon, rng, scratch):
    """The process is killed while the transfer of a large archive is under way."""
    setup = Setup(mon, rng, scratch)
    for i in range(int(rng.integers(1, 3))):
        setup.members.append((f"large{i}.h5", rng.bytes(int(rng.integers(1, 5)) * 600000)))
    setup.archive = tarball(setup.members)
    at = int(rng.integers(0, len(setup.archive)))
    if rng.integers(4) == 0:
        at = len(setup.archive) - int(rng.integers(1, 3))

    def spec(request):
        return {"body": setup.archive, "fail_at": at, "die": True, "pieces": int(rng.integers(1000, 400000))}

    status, res, _ = watch.in_child(lambda: setup.attempt(spec)[:2])
    mon.ctx(at=at, size=len(setup.archive), status=status)
    mon.check(status == "killed", "the attempt was killed")
    mon.ev("kills_hit")
    left = [p for p in setup.dest.rglob("*") if p.is_file() and p.stat().st_size >= 500000] if setup.dest.exists() else []
    mon.ev("kill_midway_left", int(bool(left)))
    setup.judge(False, None, killed=True)
    setup.recover()
    return (at, len(setup.archive), setup.how, setup.lut)


@SUITE.case(quick=400, thorough=8000)
def hostile(mon, rng, scratch):
    """Archive members that try to get out of the destination."""
    setup = Setup(mon, rng, scratch)
    outside = scratch / "a" / "outside"
    outside.mkdir()
    victim = outside / "victim"
    victim.write_bytes(b"precious")
    kind = int(rng.integers(8))
    evil = b"evil content"
    extra = []

    def link(target, typ):
        info = tarfile.TarInfo()
        info.type = typ
        info.linkname = target
        return info

    depth = "../" * int(rng.integers(1, 4))
    if kind == 0:
        extra = [(depth + "evil.txt", evil)]
    elif kind == 1:
        extra = [(str(outside / "new"), evil), (str(victim), evil)]
    elif kind == 2:
        extra = [("sub/../../" + depth + "evil", evil)]
    elif kind == 3:
        extra = [("ln", link(str(outside), tarfile.SYMTYPE)), ("ln/victim", evil), ("ln/new", evil)]
    elif kind == 4:
        extra = [("ln", link(os.path.relpath(victim, setup.dest), tarfile.SYMTYPE)), ("ln", evil)]
    elif kind == 5:
        extra = [("hl", link(str(victim), tarfile.LNKTYPE)), ("hl", evil)]
    elif kind == 6:
        extra = [("hl", link(os.path.relpath(victim, setup.dest), tarfile.LNKTYPE)), ("hl", evil)]
    else:
        extra = [("d", link(".", tarfile.SYMTYPE)), ("d/../../../evil", evil), ("e", link("d/../..", tarfile.SYMTYPE)), ("e/canary", evil)]
    if kind in (3, 4, 5, 6, 7):
        mon.ev("hostile_links")
    mon.ev("hostile_members", len(extra))
    members = list(setup.members)
    at = int(rng.integers(0, len(members) + 1))
    archive = tarball(members[:at] + extra + members[at:])
    inside = str(setup.dest.relative_to(scratch))

    def others():
        return {k: v for k, v in data.snapshot_tree(scratch).items()
                if k != inside and not k.startswith(inside + "/")}

    if setup.lut:
        setup.dest.mkdir(exist_ok=True)
    before = others()
    ok, err, _ = setup.attempt(archive)
    after = others()
    diff = {k: (before.get(k), after.get(k)) for k in set(before) | set(after) if before.get(k) != after.get(k)}
    mon.ctx(kind=kind, members=[m[0] for m in extra], error=repr(err))
    mon.check(not diff, "archive members never write outside the destination directory", diff=diff)
    mon.check(victim.read_bytes() == b"precious", "archive members never write outside the destination directory")
    claim = setup.up_to_date()
    if not ok:
        mon.check(not (claim and setup.complete()), "a failed download does not claim to be up to date", bad=setup.complete())
        mon.ev("failures_reported")
    for path, body in setup.bystander.items():
        mon.check(path.read_bytes() == body, "other files stay intact", path=str(path))
    return (kind, at, depth, ok, setup.lut)


@SUITE.case(quick=60, thorough=900)
def several(mon, rng, scratch):
    """One of several data sets fails: the others are not affected, and it is not claimed."""
    conf = {"rsr_dir": str(scratch / "rsr"), "rayleigh_dir": str(scratch / "ray"), "download_from_internet": True}
    (scratch / "c.yaml").write_text(yaml.safe_dump(conf))
    os.environ["PSP_CONFIG_FILE"] = str(scratch / "c.yaml")
    names = [str(x) for x in rng.permutation(list(tables.AEROSOLS))[:int(rng.integers(2, 6))]]
    bad = int(rng.integers(len(names)))
    arcs = {}
    for name in names:
        info = tables.AEROSOLS[name]
        arcs[name] = [("rayleigh_lut_us-standard.h5", name.encode() * 50), (info["filename"], info["version"].encode())]
    pages = {tables.AEROSOLS[n]["url"]: tarball(arcs[n]) for n in names}
    good = dict(pages)
    pages[tables.AEROSOLS[names[bad]]["url"]] = [{"status": 503}, pages[tables.AEROSOLS[names[bad]]["url"]][:60],
                                                 requests.ConnectionError("x")][rng.integers(3)]
    mon.ctx(names=names, bad=bad)
    with fake_net(pages):
        mon.raises(Exception, "the failure is reported", rayleigh.check_and_download, aerosol_types=names)
    for i, name in enumerate(names):
        claim = rayleigh.RayleighConfigBaseClass(name).lutfiles_version_uptodate
        path = scratch / "ray" / name / "rayleigh_lut_us-standard.h5"
        there = path.exists() and path.read_bytes() == name.encode() * 50
        mon.check(not claim or there, "only complete data sets claim to be up to date", name=name)
        mon.check(i != bad or not claim, "the failed data set does not claim to be up to date", name=name)
    claims = {n: rayleigh.RayleighConfigBaseClass(n).lutfiles_version_uptodate for n in names}
    with fake_net(good) as net:
        rayleigh.check_and_download(aerosol_types=names)
    mon.check(sorted(net.urls) == sorted(tables.AEROSOLS[n]["url"] for n in names if not claims[n]),
              "a later attempt fetches exactly what is missing", urls=net.urls)
    for name in names:
        mon.check((scratch / "ray" / name / "rayleigh_lut_us-standard.h5").read_bytes() == name.encode() * 50,
                  "each data set ends up in its own directory", name=name)
    mon.ev("recoveries")
    mon.ev("lut_downloads", len(names))
    return (names, bad)
