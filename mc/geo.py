"""Alphabets of geometries and poses shared by the geometry properties."""
from .ref import PI

SPECS = [
    ("line", 100.0), ("line", 1), ("line", 0.25), ("line", 12345.678),
    ("arcL", 0.05, 20), ("arcL", -0.05, 20.0), ("arcL", 2, 0.1), ("arcL", -0.001, 1000.0), ("arcL", 0.1, 2 * PI * 10 * 0.75), ("arcL", 0.1, 80.0), ("arcA", -0.05, -7.5), ("spL", 0.2, 0.4, 40.0), ("spL", 0, 1.5e-3, 2000.0),
    ("arcA", 0.05, 1.0), ("arcA", -0.05, -1.0), ("arcA", 1, PI / 2), ("arcA", -0.2, -PI), ("arcA", 0.01, 0.001), ("arcA", 0.02, 5.5),
    ("spL", 0, 0.05, 20), ("spL", 0.05, 0, 20.0), ("spL", -0.02, 0.06, 15.0), ("spL", 0.03, 0.08, 30.0), ("spL", -0.08, -0.03, 30.0),
    ("spL", 0.04, 0.04, 25.0), ("spL", 0, 0, 10), ("spL", 0.06, -0.02, 40.0), ("spL", 1e-9, 0.1, 10.0),
    ("spA", 0, 0.05, 0.7), ("spA", 0.05, 0, 0.7), ("spA", 0.02, 0.05, 0.4), ("spA", -0.05, -0.02, -0.4), ("spA", 1e-9, 0.1, PI / 6), ("spA", 0, -0.1, -1.2),
    ("spA", -0.04, -0.04, -0.5),
    ("spC", 0, 0.05, 0.002), ("spC", 0.05, 0, -0.002), ("spC", -0.03, 0.06, 0.003), ("spC", 0.08, 0.03, -0.001),
    ("polyN", (0, 30, 0, 0, 0, 0, 0, 0)), ("polyN", (0, 20, 5, -2, 0, 0, 8, -3)), ("polyN", (0, 10, 0.5, 0, 0, 0, -6, 1)),
    ("polyN", (0, 15.5, -3, 1, 0, 4.0, 0, 2)), ("polyN", (1, 10, 0, 2, -2, 3, 0, 0)), ("polyN", (0, 1, -3, 0, 0, 0, 4, 0)),
    ("polyA", (0, 1, 0, 0, 0, 0, 0, 0), 25), ("polyA", (0, 1, 0, -1e-4, 0, 0, 0.01, -1e-5), 20.0), ("polyA", (0, 1, 0, 0, 0, 0, -0.02, 1e-4), 12.5),
    ("polyA", (0, 0.9, 0.001, 0, 0, 0.3, 0.01, 0), 10),
]
# very short, very long, nearly straight, tightly wound
SPECS += [
    ("line", 1e-6), ("line", 1234567.8912345), ("line", 1e8 / 3), ("arcL", 1e-7, 5e3), ("arcL", 50, 0.1), ("arcA", -2e-5, -0.01), ("arcL", -0.1, 20 * PI * 3.25), ("arcA", 3e-6, 2e-7),
    ("spL", 0, 8e-6, 1000.0), ("spL", 1e-7, 2e-7, 1e5), ("spL", 0, 10, 1.0), ("spA", 0, 1e-5, 0.1), ("spA", -5e-6, -1e-9, -1e-3), ("spC", 0, 1e-5, 1e-8), ("spL", 0.05, 0.0500001, 40.0),
    ("polyA", (0, 1, 0, 0, 0, 0, 0, 5e-6), 100.0), ("polyA", (0, 1, 2e-6, 0, 0, 0, -3e-6, 0), 500.0), ("polyN", (0, 5e5, 0, 0, 0, 0, 2e3, -1e3)), ("polyN", (0, 1e-3, 0, 0, 0, 0, 1e-4, 0)),
]
# one of each way to build, for products
CORE = [("line", 40.0), ("arcL", -0.05, 20.0), ("arcA", 0.04, 1.1), ("arcA", -0.04, -0.9), ("spL", -0.02, 0.06, 15.0), ("spA", 1e-9, 0.1, PI / 6), ("spC", 0.05, 0, -0.002),
        ("polyN", (0, 20, 5, -2, 0, 0, 8, -3)), ("polyA", (0, 1, 0, -1e-4, 0, 0, 0.01, -1e-5), 20.0)]
POSES = [(0, 0, 0), (10.0, -20.0, 0.5), (-3, 7, PI / 2), (1e4, -2e4, -2.5), (0.0, 5.0, PI), (1, 2, 7.5), (-100, 0, -PI / 2), (3.3, 4.4, 1e-3)]
