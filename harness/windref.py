"""Independent wind triangle: 2-D vectors and atan2."""
import math


def convert(ws, wa, bsp, to_apparent):
    """The boat moves along +x; wind angles are measured from the bow."""
    a = math.radians(wa % 360.0)
    s = 1.0 if to_apparent else -1.0
    x = ws * math.cos(a) + s * bsp
    y = ws * math.sin(a)
    return math.hypot(x, y), math.degrees(math.atan2(y, x)) % 360.0


def same_wind(ws1, wa1, ws2, wa2, scale, tol=2e-7):
    """Equal as vectors, relative to the size of the vectors involved.

    The documented closed form (law of cosines, arccos) loses half of the
    digits near cancellation, hence the square root of the machine epsilon.
    """
    a1, a2 = math.radians(wa1), math.radians(wa2)
    dx = ws1 * math.cos(a1) - ws2 * math.cos(a2)
    dy = ws1 * math.sin(a1) - ws2 * math.sin(a2)
    return math.hypot(dx, dy) <= tol * (scale + 1e-12)
