""" 3D objects with figures, driven by the monitors (a small module: listing views reads the source of the class). """
from dessia_common.core import PhysicalObject
from dessia_common.decorators import markdown_view, plot_data_view


class Drawable:
    """ A figure that knows how to draw itself. """

    def __init__(self, points):
        self.points = points

    def mpl_plot(self):
        """ What matplotlib would give. """
        DRAWN.append(Axes(self.points))
        return DRAWN[-1]


class Axes:
    """ Stands for the axes of matplotlib, and for their figure. """

    def __init__(self, points):
        self.points, self.shown, self.figure = points, True, self

    def set_axis_off(self):
        """ Hide the axes. """
        self.shown = False

    def savefig(self, stream, format):  # pylint: disable=redefined-builtin
        """ Write something. """
        stream.write(f"{format} {self.points} {self.shown}".encode())


DRAWN = []


class Solid(PhysicalObject):
    """ Has figures and 3D exports. """

    def __init__(self, size: int, name: str = ""):
        self.size = size
        PhysicalObject.__init__(self, name=name)

    @plot_data_view("Curve")
    def curve(self):
        """ Can be drawn. """
        return Drawable([self.size, 1, 2])

    @plot_data_view("Raw")
    def raw(self):
        """ Cannot be drawn. """
        return ["raw"]

    @markdown_view("Words")
    def words(self):
        """ Text. """
        return f"# {self.size}"

    def to_step_stream(self, stream):
        """ Text. """
        stream.write(f"step {self.size}")

    def to_stl_stream(self, stream):
        """ Binary. """
        stream.write(f"stl {self.size}".encode())

    def to_html_stream(self, stream):
        """ Text. """
        stream.write(f"html é {self.size}")
