"""Runtime monitors for reservoirflow."""
