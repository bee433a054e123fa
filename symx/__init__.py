"""symx: a small dynamic symbolic executor for Python source (see DESIGN.md)."""
