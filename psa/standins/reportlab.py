"""Stand-in of reportlab."""
