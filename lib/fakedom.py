"""A strict model of the part of the DOM API that's relevant for rendering, the way that
it's available from Python by means of Pyodide."""
import sys
import types


class DOMException(Exception):
    pass


def js_string(value):
    """The string that the DOM stores for a Python value"""
    if value is None:
        return "undefined"
    if value is True:
        return "true"
    if value is False:
        return "false"
    if isinstance(value, float) and value.is_integer():
        return str(int(value))
    return str(value)


class Node:
    def __init__(self, document):
        self.ownerDocument = document
        self.parentNode = None
        self._children = []
        self._listeners = {}

    # Comparison by identity, truth value like proxies: form-like elements without
    # children have a length of 0
    def __bool__(self):
        return not (isinstance(self, Element) and self.formlike and not self._children)

    @property
    def childNodes(self):
        return tuple(self._children)

    def _check(self, child):
        if not isinstance(child, Node):
            raise TypeError("parameter 1 is not of type 'Node'")
        if isinstance(self, Text):
            raise DOMException("HierarchyRequestError: can't insert into Text")
        node = self
        while node is not None:
            if node is child:
                raise DOMException("HierarchyRequestError: contains the parent")
            node = node.parentNode

    def _detach(self):
        if self.parentNode is not None:
            children = self.parentNode._children
            del children[[c is self for c in children].index(True)]
            self.parentNode = None

    def appendChild(self, child):
        return self.insertBefore(child, None)

    def insertBefore(self, child, ref):
        self._check(child)
        if ref is not None:
            if not isinstance(ref, Node):
                raise TypeError("parameter 2 is not of type 'Node'")
            if ref.parentNode is not self:
                raise DOMException("NotFoundError: reference is not a child")
        if ref is child:
            at = [c is child for c in self._children].index(True) + 1
            ref = self._children[at] if at < len(self._children) else None
        child._detach()
        index = len(self._children)
        if ref is not None:
            index = [c is ref for c in self._children].index(True)
        self._children.insert(index, child)
        child.parentNode = self
        return child

    def removeChild(self, child):
        if not isinstance(child, Node):
            raise TypeError("parameter 1 is not of type 'Node'")
        if child.parentNode is not self:
            raise DOMException("NotFoundError: not a child of this node")
        child._detach()
        return child

    # Pyodide manages the lifetime of the proxies of listeners by their id
    def addEventListener(self, event, listener):
        if not callable(listener):
            raise TypeError("parameter 2 is not of type 'Object'")
        self._listeners.setdefault(str(event), {})[id(listener)] = listener

    def removeEventListener(self, event, listener):
        del self._listeners[str(event)][id(listener)]

    def dispatch(self, event, *args, **kwargs):
        for listener in list(self._listeners.get(event, {}).values()):
            listener(*args, **kwargs)

    @property
    def textContent(self):
        return "".join(child.textContent for child in self._children)


class Element(Node):
    formlike = False

    def __init__(self, document, name):
        super().__init__(document)
        self.localName = name
        self.tagName = name.upper()
        self._attributes = {}

    def setAttribute(self, name, value):
        name = str(name)
        if not name or any(c in " \t\n/>=\0" for c in name):
            raise DOMException(f"InvalidCharacterError: {name!r}")
        self._attributes[name.lower()] = js_string(value)

    def removeAttribute(self, name):
        # Not an error when it doesn't exist
        self._attributes.pop(str(name).lower(), None)

    def getAttribute(self, name):
        return self._attributes.get(str(name).lower())

    @property
    def textContent(self):
        return super().textContent

    @textContent.setter
    def textContent(self, value):
        for child in self.childNodes:
            child._detach()
        if value not in (None, ""):
            self.appendChild(Text(self.ownerDocument, js_string(value)))

    def __repr__(self):
        return f"<{self.localName} {self._attributes}>"


class Text(Node):
    def __init__(self, document, data):
        super().__init__(document)
        self.data = data

    @property
    def textContent(self):
        return self.data

    @textContent.setter
    def textContent(self, value):
        self.data = "" if value is None else js_string(value)

    def __repr__(self):
        return f"Text({self.data!r})"


class FormLike(Element):
    formlike = True


class Document:
    def __init__(self):
        self.body = Element(self, "body")
        self.calls = 0
        self.formlike = set()

    def createElement(self, name):
        if not isinstance(name, str) or not name or not name[0].isalpha():
            raise DOMException(f"InvalidCharacterError: {name!r}")
        self.calls += 1
        cls = FormLike if name in self.formlike else Element
        return cls(self, name.lower())

    def createTextNode(self, data):
        self.calls += 1
        return Text(self, js_string(data))


def install():
    """Makes `import js` work; has to be called before collagraph is imported"""
    document = Document()
    js = types.ModuleType("js")
    js.window = types.SimpleNamespace(document=document)
    js.document = document
    sys.modules["js"] = js
    return js


def current():
    """The document, emptied for the next case"""
    document = sys.modules["js"].document
    document.__init__()
    return document
