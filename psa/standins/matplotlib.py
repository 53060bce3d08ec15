"""Stand-in of matplotlib: figures keep what is added to them."""
