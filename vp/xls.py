"""Write simple Excel 5 workbooks (a plain BIFF stream, which xlrd reads)."""
import struct


def _rec(kind, data):
    return struct.pack("<HH", kind, len(data)) + data


def _sheet(cells):
    """cells: {(row, col): number or text}."""
    out = [_rec(0x0809, struct.pack("<HHHH", 0x0500, 0x0010, 0, 0))]
    rows = [r for r, _ in cells] or [0]
    cols = [c for _, c in cells] or [0]
    out.append(_rec(0x0200, struct.pack("<HHHHH", 0, max(rows) + 1, 0, max(cols) + 1, 0)))
    for (row, col), val in sorted(cells.items()):
        if isinstance(val, str):
            raw = val.encode("cp1252")
            out.append(_rec(0x0204, struct.pack("<HHHH", row, col, 0, len(raw)) + raw))
        else:
            out.append(_rec(0x0203, struct.pack("<HHHd", row, col, 0, float(val))))
    out.append(_rec(0x000A, b""))
    return b"".join(out)


def write(path, sheets):
    """sheets: [(name, {(row, col): value})]."""
    head = _rec(0x0809, struct.pack("<HHHH", 0x0500, 0x0005, 0, 0)) + _rec(0x0042, struct.pack("<H", 1252))
    bodies = [_sheet(cells) for _, cells in sheets]
    names = [name.encode("cp1252") for name, _ in sheets]
    pos = len(head) + sum(4 + 7 + len(n) for n in names) + 4
    bound = b""
    for name, body in zip(names, bodies):
        bound += _rec(0x0085, struct.pack("<IBBB", pos, 0, 0, len(name)) + name)
        pos += len(body)
    with open(path, "wb") as fp:
        fp.write(head + bound + _rec(0x000A, b"") + b"".join(bodies))
