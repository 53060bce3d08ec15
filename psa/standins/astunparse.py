"""Stand-in of astunparse: not used by the analysed paths."""
