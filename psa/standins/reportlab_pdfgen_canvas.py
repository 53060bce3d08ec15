"""Stand-in of reportlab.pdfgen.canvas: the canvas keeps the calls in order, with the translation in force."""

CANVASES = []


class Canvas:
    def __init__(self, filename, pagesize=None, **kwargs):
        self.filename = filename
        self.pagesize = pagesize
        self.dx = 0
        self.dy = 0
        self.drawn = []
        self.log = []
        self.saved = 0
        self.fill_color = None
        self.stack = []
        CANVASES.append(self)

    def translate(self, dx, dy):
        self.dx = self.dx + dx
        self.dy = self.dy + dy

    def setFont(self, name, size):
        self.font = (name, size)

    def saveState(self):
        self.stack.append((self.dx, self.dy, self.fill_color))

    def restoreState(self):
        self.dx, self.dy, self.fill_color = self.stack.pop()

    def setFillColor(self, color):
        self.fill_color = color

    def setStrokeColor(self, color):
        pass

    def setDash(self, *args):
        pass

    def setLineWidth(self, width):
        pass

    def _draw(self, *args):
        self.drawn.append(args + (self.dx, self.dy))
        self.log.append('draw')

    def drawString(self, x, y, text):
        self._draw('text', x, y, text)

    def circle(self, x, y, r, stroke=1, fill=0):
        self._draw('circle', x, y, r, fill, self.fill_color)

    def line(self, x1, y1, x2, y2):
        self._draw('line', x1, y1, x2, y2)

    def bezier(self, x1, y1, x2, y2, x3, y3, x4, y4):
        self._draw('bezier', x1, y1, x2, y2, x3, y3, x4, y4)

    def showPage(self):
        self.log.append('page')

    def save(self):
        self.log.append('save')
