"""Stand-in of reportlab.lib.units."""

inch = 72.0
cm = inch / 2.54
mm = cm * 0.1
