"""Runtime monitors for pyspectral."""
