"""Drawings that the rules about SVG texts accept or reject."""


def number(x):
    return ('%.4f' % x).rstrip('0').rstrip('.')


def cut(x):
    return ('%.4f' % x).rstrip('0.')


class Good:
    def __init__(self, size, stream):
        self.stream = stream
        self.prefix = ""
        self.nesting = 0
        w, h = number(size.real), number(size.imag)
        self.element('svg width="%s" height="%s" viewBox="0 0 %s %s"' %
                     (w, h, w, h), 1)

    def close(self):
        self.element('svg', -1)

    def element(self, e, delta=0, tight=False, style={}, **more):
        if delta < 0:
            self.nesting -= 1
        self.stream.write('</' if delta < 0 else '<')
        self.stream.write(self.prefix + e)
        style = dict(style)
        style.update(more)
        if style:
            inside = '; '.join(k + ':' + style[k] for k in style)
            self.stream.write(' style="%s"' % inside)
        self.stream.write('/>' if delta == 0 else '>')
        if delta > 0:
            self.nesting += 1

    def group(self, style={}, **more):
        self.element('g', 1, style=style, **more)

    def ungroup(self):
        self.element('g', -1)

    def circle(self, c, r, style={}, **more):
        self.element('circle cx="%s" cy="%s" r="%s"' % (
            number(c.real), number(c.imag), number(r)), style=style, **more)

    def rectangle(self, p, q, style={}, **more):
        self.element('rect x="%s" y="%s" width="%s" height="%s"' % (
            number(min(p.real, q.real)), number(min(p.imag, q.imag)),
            number(abs(p.real - q.real)), number(abs(p.imag - q.imag))),
            style=style, **more)

    def polygon(self, points, style={}, **more):
        s = ' '.join(number(p.real) + ',' + number(p.imag) for p in points)
        self.element('polygon points="%s"' % s, style=style, **more)

    def segment(self, p, q, style={}, **more):
        self.element('line x1="%s" y1="%s" x2="%s" y2="%s"' % (
            number(p.real), number(p.imag), number(q.real), number(q.imag)),
            style=style, **more)

    def arc(self, p, q, r, large=False, style={}, **more):
        r = number(r)
        self.element('path d="M %s,%s A %s,%s 0 %s 0 %s,%s"' % (
            number(p.real), number(p.imag), r, r, '1' if large else '0',
            number(q.real), number(q.imag)), style=style, **more)

    def text(self, label, at, style={}, **more):
        self.element('text x="%s" y="%s"' % (
            number(at.real), number(at.imag)), 1, True, style=style, **more)
        self.stream.write(label)
        self.element('text', -1, True)


class Plain(Good):
    def segment(self, p, q, style={}, **more):
        x1, y1 = p.real, p.imag
        x2, y2 = q.real, q.imag
        self.element(
            'line x1="{}" y1="{}" x2="{}" y2="{}"'.format(
                number(x1), number(y1), number(x2), number(y2)),
            style=style, **more)


class Swapped(Good):
    def circle(self, c, r, style={}, **more):
        self.element('circle cx="%s" cy="%s" r="%s"' % (
            number(c.imag), number(c.real), number(r)), style=style, **more)


class Open(Good):
    def text(self, label, at, style={}, **more):
        self.element('text x="%s" y="%s"' % (
            number(at.real), number(at.imag)), 1, True, style=style, **more)
        self.stream.write(label)


class Zeros(Good):
    def circle(self, c, r, style={}, **more):
        self.element('circle cx="%s" cy="%s" r="%s"' % (
            cut(c.real), cut(c.imag), cut(r)), style=style, **more)


class Corner(Good):
    def rectangle(self, p, q, style={}, **more):
        self.element('rect x="%s" y="%s" width="%s" height="%s"' % (
            number(p.real), number(p.imag),
            number(abs(p.real - q.real)), number(abs(p.imag - q.imag))),
            style=style, **more)
