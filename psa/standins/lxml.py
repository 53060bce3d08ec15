"""Stand-in of lxml."""
