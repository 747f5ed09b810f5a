"""s2sim: deterministic simulation with fault injection for s2wav."""
