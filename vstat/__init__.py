"""Repository-specific static analyser for gtri/upstage (no code under test is ever run)."""
