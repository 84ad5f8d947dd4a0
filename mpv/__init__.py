"""Runtime monitors for the movement primitives library in /repo."""
