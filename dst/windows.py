"""The simulated window system: sizes, device pixel ratios and resize events.

A user resizes a window at once, the event telling so arrives later: it may
be coalesced with later ones, delivered several times, or late.
"""
import math

from matplotlib.backend_bases import ResizeEvent


INCH = {"in": 1.0, "pt": 1 / 72, "cm": 1 / 2.54, "mm": 1 / 25.4}


def pixels(size, dpi):
    """The size of a canvas: pixels, or ['op', '*', number, unit] in any order."""
    if not isinstance(size, list):
        return size
    n, unit = size[2:] if size[3][0] == "unit" else size[:1:-1]
    return n[1] * (1.0 if unit[1] == "px" else INCH[unit[1]] * dpi)


class Window:
    def __init__(self, canvas, w, h, dpi):
        self.canvas, self.dpi = canvas, dpi
        self.w, self.h = pixels(w, dpi), pixels(h, dpi)
        self.pending = 0
        self.resized = False

    def has_size(self, w, h):
        """Is that the size in whole pixels?"""
        return all(int(b - 1e-6) <= a <= int(b + 1e-6) for a, b in ((w, self.w), (h, self.h)))

    @property
    def figure(self):
        return self.canvas._figure

    @property
    def axes(self):
        """Axes of the viewports of the canvas, in creation order."""
        return self.figure.axes

    def inches(self, size):
        """A size in inches that is that many whole pixels again."""
        n = size / self.dpi
        while int(n * self.dpi) < int(size):
            n = math.nextafter(n, math.inf)
        return n

    def size(self, w, h):
        """The window gets another size; an event is under way."""
        self.w, self.h, self.resized = w, h, True
        self.figure.set_size_inches(self.inches(w), self.inches(h), forward=False)
        self.pending += 1

    def ratio(self, ratio):
        """The window moves to a screen of another density."""
        self.figure.canvas._set_device_pixel_ratio(ratio)

    def deliver(self):
        self.figure.canvas.callbacks.process(
            "resize_event", ResizeEvent("resize_event", self.figure.canvas))

    def drain(self, times=1):
        """Deliver what is under way: coalesced into one event, or repeatedly."""
        self.pending = 0
        for _ in range(times):
            self.deliver()
