"""Reads a report page back the way a browser would."""
import re
from html.parser import HTMLParser

VOID = {"meta", "br", "hr", "img", "link", "input"}


class Node:
    def __init__(self, tag, attrs):
        self.tag = tag
        self.attrs = dict(attrs)
        self.children = []

    def text(self):
        return "".join(c if isinstance(c, str) else c.text() for c in self.children)

    def kids(self, tag=None):
        return [c for c in self.children if isinstance(c, Node) and (tag is None or c.tag == tag)]

    def find(self, tag, out=None):
        """Every descendant with this tag, in document order."""
        out = [] if out is None else out
        for c in self.children:
            if isinstance(c, Node):
                if c.tag == tag:
                    out.append(c)
                c.find(tag, out)
        return out

    def all(self):
        yield self
        for c in self.children:
            if isinstance(c, Node):
                yield from c.all()


class Reader(HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.root = Node("root", [])
        self.stack = [self.root]
        self.errors = []

    def handle_starttag(self, tag, attrs):
        node = Node(tag, attrs)
        self.stack[-1].children.append(node)
        if tag not in VOID:
            self.stack.append(node)

    def handle_startendtag(self, tag, attrs):
        self.stack[-1].children.append(Node(tag, attrs))

    def handle_endtag(self, tag):
        if tag in VOID:
            return
        if self.stack[-1].tag != tag:
            self.errors.append("</%s> closes <%s>" % (tag, self.stack[-1].tag))
            return
        self.stack.pop()

    def handle_data(self, data):
        self.stack[-1].children.append(data)


def tree(html):
    r = Reader()
    r.feed(html)
    r.close()
    if len(r.stack) != 1:
        r.errors.append("unclosed <%s>" % r.stack[-1].tag)
    return r.root, r.errors


PIC = re.compile(r"^pic([0-9][mpsz])$")
CSS = re.compile(r"\.pic([0-9][mpsz])\s*\{[^}]*url\(\"data:image/png;base64,([A-Za-z0-9+/=]*)\"\)")


def styles(html):
    return dict(CSS.findall(html))


def tile_of(node):
    for c in node.attrs.get("class", "").split():
        m = PIC.match(c)
        if m:
            return m.group(1)
    return None


def tiles(node):
    return [t for t in map(tile_of, node.find("div")) if t]


STEPS = re.compile(r"Steps\s+(-?\d+)\s+Tiles\s+(-?\d+)")
COLOUR = re.compile(r"rgba\(\s*(\d+)\s*,\s*(\d+)\s*,\s*(\d+)\s*,\s*([^)]*)\)")


def reasoning(node):
    """The entries directly below: (discard tiles, steps, count, useful tiles)."""
    out = []
    for box in node.kids("div"):
        head, tail = box.kids("div")
        m = STEPS.search(head.text())
        out.append((tiles(head), int(m.group(1)), int(m.group(2)), tiles(tail)))
    return out


def row(tr):
    no, hand, yours, best, why = tr.kids("td")
    colour = COLOUR.search(tr.attrs["style"])
    groups, own = [[]], []
    # a call is followed by a blank, the concealed tiles come last
    for c in hand.children:
        if isinstance(c, str):
            if "\xa0" in c:
                groups.append([])
        elif tile_of(c):
            groups[-1].append(tile_of(c))
    own = groups.pop()
    outer = why.kids("details")[0]
    table = outer.find("table")[0]
    said = [STEPS.search(r.text()) for r in table.find("tr")]
    said = [(int(m.group(1)), int(m.group(2))) for m in said]
    inner = outer.kids("details")
    return {"no": no.text().strip(), "colour": tuple(int(x) for x in colour.groups()[:3]),
            "weight": float(colour.group(4)), "melds": groups, "hand": own, "yours": tiles(yours),
            "best": tiles(best), "expected": said[0], "actual": said[1], "merged": reasoning(outer),
            "normal": reasoning(inner[0]), "seven": reasoning(inner[1])}


def read(html):
    css = styles(html)
    body = re.sub(r"(?s)<style.*?</style>", "", html, count=1)
    root, errors = tree(body)
    games = []
    for block in root.find("details"):
        caption = [s for s in block.kids("summary") if s.find("span")]
        if not caption or block.kids("table") == []:
            continue
        rows = [r for r in block.kids("table")[0].kids("tr") if r.kids("td")]
        games.append({"caption": caption[0].find("span")[0].text(), "rows": [row(r) for r in rows]})
    ps = root.find("p")
    return {"css": css, "root": root, "errors": errors, "games": games, "ps": ps}
