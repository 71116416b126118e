"""Alphabets of optics, places, rays and scenes that the checks combine exhaustively."""
import math

from mc.ref import add, cross, mul, unit


def frame(n, hint=(0.31, 0.17, 0.93)):
    """a tangent perpendicular to n"""
    n = unit(n)
    t = cross(n, hint)
    return unit(t)


def tilt(n, a, b=0.0):
    """n turned a little: by a about x, by b about z"""
    ca, sa = math.cos(a), math.sin(a)
    n = (n[0], n[1] * ca - n[2] * sa, n[1] * sa + n[2] * ca)
    cb, sb = math.cos(b), math.sin(b)
    return (n[0] * cb - n[1] * sb, n[0] * sb + n[1] * cb, n[2])


def kinds():
    """name -> function(position, direction facing) -> optic tuple; sizes of about 20 mm"""
    def lens_solid(p, n, how, index):
        n = unit(n)
        return ("solid", ("intersect", ("sphere", add(p, mul(13.0, n)), 17.0), ("sphere", add(p, mul(-13.0, n)), 17.0)), how, index)

    def bitten(p, n, how, index):
        n = unit(n)
        return ("solid", ("difference", ("sphere", p, 9.0), ("sphere", add(p, mul(-6.0, n)), 7.0)), how, index)

    def tube(p, n, how, index):
        n = unit(n)
        return ("solid", ("difference", ("cyl", p, frame(n), 8.0), ("cyl", p, frame(n), 5.0)), how, index)

    def dumbbell(p, n, how, index):
        t = frame(n)
        return ("solid", ("union", ("sphere", add(p, mul(5.0, t)), 7.0), ("sphere", add(p, mul(-4.0, t)), 6.0)), how, index)

    return {
        "flat": lambda p, n: ("flat", p, n, 22.0),
        "rect": lambda p, n: ("rect", p, n, frame(n), 26.0, 17.0),
        "dmd": lambda p, n: ("dmd", p, n, frame(n), 19.0, 24.0, unit(add(unit(n), mul(0.21, frame(n))))),
        "concave": lambda p, n: ("concave", p, n, 24.0, 30.0),
        "convex": lambda p, n: ("convex", p, 18.0),
        "ideal": lambda p, n: ("ideal", p, n, 25.0, 40.0),
        "diverging": lambda p, n: ("ideal", p, n, 25.0, -35.0),
        "collimate": lambda p, n: ("collimate", p, n, 23.0, 30.0),
        "focus": lambda p, n: ("focus", p, n, 23.0, 28.0),
        "ball": lambda p, n: ("ball", p, 17.0, 1.52),
        "grating": lambda p, n: ("grating", p, n, frame(n), 21.0, 25.0, 600.0),
        "detector": lambda p, n: ("detector", p, n, frame(n), 15.0, 27.0),
        "glassball": lambda p, n: ("solid", ("sphere", p, 8.5), "refract", 1.45),
        "lens": lambda p, n: lens_solid(p, n, "refract", 1.6),
        "bitten": lambda p, n: bitten(p, n, "refract", 1.5),
        "tube": lambda p, n: tube(p, n, "refract", 1.4),
        "shinyrod": lambda p, n: ("solid", ("cyl", p, frame(n), 7.0), "reflect", 1.5),
        "shiny": lambda p, n: dumbbell(p, n, "reflect", 1.5),
    }


KINDS = kinds()
NAMES = list(KINDS)
PASSIVE = ("annotation", "filter", "window")

# three places along y; each with the direction faced towards a ray coming from -y
PLACES = [(0.4, 20.0, -0.7), (-0.9, 55.0, 0.6), (1.1, 95.0, 0.3)]
FACINGS = [tilt((0, -1, 0), 0.11, 0.07), tilt((0, 1, 0), -0.23, 0.13), tilt((0, -1, 0), 0.74, -0.2)]


def optic(name, place=0, facing=0):
    return KINDS[name](PLACES[place], FACINGS[facing])


# rays: (position, direction, wavelength, order)
FORWARD = [
    ((0.3, -30.0, 0.2), (0.01, 1.0, 0.013), 532, 0),
    ((-2.1, -25.0, 3.4), (0.041, 1.0, -0.035), 633, 1),
    ((4.2, -40.0, -3.1), (-0.08, 1.0, 0.11), 405.5, -1),
    ((6.3, -28.0, 5.2), (0.003, 1.0, -0.002), 780, 2),
]
BACKWARD = [
    ((1.3, 160.0, -0.8), (-0.012, -1.0, 0.006), 500, 0),
    ((-3.3, 140.0, 2.4), (0.03, -1.0, -0.021), 1064, 1),
]
MIDDLE = [
    ((0.7, 37.0, 0.9), (0.05, 1.0, -0.03), 532, -1),
    ((0.2, 38.5, -1.2), (-0.021, -1.0, 0.017), 450, 1),
    ((-0.4, 75.0, 1.5), (0.07, -1.0, 0.02), 680, 0),
    ((0.4, 74.0, 0.5), (-0.02, 1.0, 0.01), 250, 1),
]
INSIDE = [
    ((1.4, 19.0, 0.8), (0.3, 1.0, 0.2), 532, 1),
    ((0.1, 54.0, -0.6), (-0.2, -1.0, 0.4), 600, 0),
]
SIDE = [
    ((-60.0, 20.5, 0.4), (1.0, 0.02, -0.01), 532, 1),
    ((1.2, 56.0, 80.0), (-0.01, 0.015, -1.0), 700, -1),
    ((40.0, -20.0, 30.0), (1.0, 0.4, 0.2), 532, 0),
]
ALL_RAYS = FORWARD + BACKWARD + MIDDLE + INSIDE + SIDE
