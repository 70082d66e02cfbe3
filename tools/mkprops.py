"""Source of properties.jsonl: python3 tools/mkprops.py > properties.jsonl"""
import json

CG = "collagraph/collagraph.py"
CO = "collagraph/component.py"
CMP = "collagraph/compare.py"
TY = "collagraph/types.py"
CGX = "collagraph/cgx/cgx.py"
IMP = "collagraph/cgx/importer.py"
DICT = "collagraph/renderers/dict_renderer.py"
DOM = "collagraph/renderers/dom_renderer.py"
GFX = "collagraph/renderers/pygfx_renderer.py"
QT = "collagraph/renderers/pyside_renderer.py"
OBJ = "collagraph/renderers/pyside/objects/"
CLI = "collagraph/__main__.py"
PYI = "collagraph/__pyinstaller/hook-collagraph.py"

P = []


def prop(id, title, statement, over, text, why, files, *mech, state=None):
    entry = dict(
        id=id,
        title=title,
        statement=statement,
        quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(
            files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
        ),
    )
    if state:
        entry["anchors"]["state"] = [dict(name=n, meaning=m) for n, m in state]
    assert len(title) <= 80, title
    P.append(entry)


prop(
    "C01",
    "After every update the container equals a fresh render of the current state",
    "Once a Collagraph instance has handled a state change, the tree of elements in the "
    "container (element types, order, nesting, attributes and text) equals what the "
    "current element tree (host elements, text, None, template fragments, function and "
    "class components, with and without keys) describes for the current state and props. "
    "This holds after every step of any history of inserting, removing, reordering, "
    "re-typing, re-keying and re-attributing of siblings at any depth, including changes "
    "to the local state of nested components and rendering another root element.",
    ["histories", "programs", "inputs"],
    "For all element trees and all finite histories of state changes that replace any "
    "(sub)tree by any other (sub)tree.",
    "The reconciliation tests walk a few dozen hand-written transitions on flat lists of "
    "host elements; combinations of fragments, components rendering nothing, moves "
    "and insertions over several successive updates are not reached.",
    [CG, TY],
    ("reconciliation of children", CG + ":Collagraph.reconcile_children / compare"),
    ("commit of the work in progress", CG + ":Collagraph.commit_root / commit_work"),
    ("placement of elements", CG + ":Collagraph.commit_work / commit_deletion"),
    state=[("fiber tree", "the committed and the work-in-progress tree of fibers")],
)
prop(
    "C02",
    "Elements and component instances keep their identity across updates",
    "When the children of a parent change, a child that keeps its key and type keeps its "
    "element(s), and for a class component the very same instance with its local state, "
    "wherever it moves among its siblings; children without keys are matched in order. "
    "A child with a new key, or with another type than its match, gets a new element and "
    "a new component instance with fresh state; no element or instance is ever shared "
    "or swapped between children.",
    ["histories", "programs"],
    "For all histories of updates of lists of keyed and unkeyed siblings (unique keys "
    "among siblings) at any depth, in fragments and in components.",
    "Tests compare resulting contents; identity of elements and instances is only "
    "checked for a handful of transitions of a single list.",
    [CG],
    ("matching of old and new children", CG + ":compare / Collagraph.reconcile_children"),
    ("re-use of component instances", CG + ":Collagraph.update_class_component"),
)
prop(
    "C03",
    "Renderers receive only well-formed operations",
    "A renderer only ever gets asked to insert an element that isn't part of the tree "
    "into a parent that it belongs in, with an anchor that is None or that currently is "
    "a child of that parent; to remove an element from the parent that it is currently a "
    "child of; to remove attributes that are set and listeners that are attached (with "
    "the very handler that was added); and to set text on text elements only. Elements "
    "that have been removed for good are never touched or inserted again, and every "
    "element that is created gets inserted when the update is complete.",
    ["histories", "programs"],
    "For all histories of updates of all element trees: every single renderer call.",
    "The DictRenderer used by the tests doesn't validate parents, anchors, double "
    "insertions or attributes, and only final trees are asserted.",
    [CG],
    ("renderer calls in commit", CG + ":Collagraph.commit_work / commit_deletion"),
    ("attribute and listener diff", CG + ":Collagraph.update_dom_or_component"),
)
prop(
    "C04",
    "Updates touch nothing but what has changed",
    "An update creates elements only for new children, removes only the elements of "
    "removed children, moves elements only when the order of the children they belong "
    "to changed, and sets or removes exactly those attributes and texts whose value "
    "changed. Event listeners are replaced only when the handler isn't equivalent to the "
    "handler that is attached. An update that changes nothing results in no renderer "
    "calls at all.",
    ["histories", "programs"],
    "For all histories of updates: the multiset of renderer operations of every update "
    "compared with the difference between the successive descriptions.",
    "The tests look at the resulting tree, which is the same when everything is "
    "re-created or set again.",
    [CG, CMP],
    ("attribute and listener diff", CG + ":Collagraph.update_dom_or_component / is_new"),
    ("function equivalence", CMP + ":equivalent_functions"),
    ("moves", CG + ":Collagraph.reconcile_children"),
)
prop(
    "C05",
    "Event listeners on elements always behave like the latest handlers",
    "At any moment after an update, firing an event on an element has precisely the "
    "effect of the handler that the latest render specified for that event (exactly one "
    "call), and no effect when the latest render specified none. This also holds when "
    "handlers are re-created on every render as closures over changing values, lambdas "
    "with default values, functools.partial objects or methods bound to different "
    "objects, and for handlers that appear, disappear and reappear.",
    ["histories", "inputs"],
    "For all histories of handlers (closures, defaults, keyword defaults, partials, bound "
    "methods, nested functions, captured mutable objects) on keyed and unkeyed elements.",
    "Tests cover a few pairs of functions in isolation; a handler that is wrongly kept is "
    "only noticed when an event fires after a specific sequence of renders.",
    [CMP, CG],
    ("function equivalence", CMP + ":equivalent_functions / equivalent_closure_values"),
    ("listener diff", CG + ":Collagraph.update_dom_or_component"),
)
prop(
    "C06",
    "Events emitted by components reach exactly the current handlers",
    "When a component emits an event, the handler that its parent specified for it in "
    "the latest render (on_<event> prop) is called exactly once with the emitted "
    "positional and keyword arguments, just like every handler that was added with "
    "add_event_handler and not removed since; handlers of other instances, events or "
    "earlier renders are never called. Handlers may cause state changes, add or remove "
    "handlers, or make the emitting component disappear.",
    ["histories", "programs"],
    "For all histories of parents re-rendering with other handlers, instances moving and "
    "all events emitted in between.",
    "The tests emit a few events on one component with static handlers.",
    [CO, CG],
    ("event handlers of components", CO + ":Component.emit / add_event_handler"),
    ("handler diff", CG + ":Collagraph.update_dom_or_component"),
)
prop(
    "C07",
    "Lifecycle hooks follow the life of the component exactly",
    "For every component instance: mounted is called exactly once, after its elements and "
    "those of its children are in the container and after mounted of its children; "
    "before_unmount is called exactly once, when it gets removed and while its elements "
    "are still in the container; no other hook is called before mounted or after "
    "before_unmount. updated is called (once per update, children before parents, with "
    "all changes applied) when an attribute, listener or text of an element it is the "
    "closest component of changed or when its own props changed, and not when nothing "
    "in it changed.",
    ["histories", "programs"],
    "For all histories of trees of nested class components, function components, "
    "fragments and slots.",
    "Tests assert call counts for single components; ordering between nested components "
    "and timing relative to insertion and removal are checked for one or two trees.",
    [CG, CO],
    ("hook calls", CG + ":Collagraph.commit_root / commit_deletion"),
    ("marking of updates", CG + ":Collagraph.update_dom_or_component"),
)
prop(
    "C08",
    "Component props mirror what the parent passes; state is private and persistent",
    "In every render a component sees exactly the props that its parent passed in its "
    "latest render (including removed, None, False, equal-but-distinct, nested and "
    "reactive values), and changes to reactive data that was passed down are seen by "
    "the component. Props are read-only for the component, the data that is passed as "
    "props is never changed by Collagraph, and the local state of an instance "
    "changes only through that instance.",
    ["histories", "inputs"],
    "For all histories of props dictionaries (plain or reactive) passed through several "
    "levels of components, and all attempts to write to props.",
    "Tests pass a couple of scalar props and change a single one.",
    [CG, CO],
    ("props of components", CG + ":Collagraph.update_class_component"),
    ("read-only props", CO + ":Component.__init__ / props"),
)
prop(
    "C09",
    "parent, inject and element reflect the component's place in the tree",
    "In any rendered tree, component.parent is the instance of the closest enclosing "
    "class component (None at the root), inject(key, default) returns the value "
    "provided by the closest ancestor that provides that key (not by itself) or the "
    "default, and after every update component.element is the first element that the "
    "component renders, or None when it renders no element.",
    ["histories", "programs"],
    "For all nestings of class and function components, fragments, slots and host "
    "elements, all sets of provided keys (including falsy values), and all updates.",
    "Tests use one or two levels with a single provided key and a static tree.",
    [CO, CG],
    ("parent lookup", CG + ":Collagraph.update_class_component"),
    ("provide/inject", CO + ":Component.provide / inject / parent / element"),
)
prop(
    "C10",
    "Slots render the content the parent currently passes, in the child's places",
    "A component that renders its slots shows, in each place where it renders a slot, the "
    "content that its parent's latest render passed for that name (a single element or a "
    "list, called with the slot props), and nothing for names that weren't passed. State "
    "changes that the content depends on, and slots that appear, disappear or change "
    "places, are reflected, while components in slot content keep their instances.",
    ["histories", "programs"],
    "For all combinations of named and default slots, function- and class components "
    "with slots, nesting of slots in slots, and histories of content changes.",
    "The slot tests render static content once or update one value.",
    [CG, CO],
    ("slots", CG + ":create_element / render_slot / update_class_component"),
)
prop(
    "C11",
    "Time-slicing is unobservable: no lost updates, same result as synchronous",
    "With the asyncio event loop, for every way in which work is spread over loop "
    "iterations and every moment in between at which state changes happen, the "
    "instance eventually (within a bounded number of iterations after the last change) "
    "becomes idle with the container equal to a fresh render of the final state. "
    "Element operations, lifecycle calls and event behaviour stay well-formed throughout.",
    ["schedules", "histories"],
    "For all placements of deadlines/yields between units of work and all placements of "
    "state changes between (and during) units of work.",
    "Tests run with a real clock and small trees, so that work almost never yields and "
    "state never changes halfway.",
    [CG],
    ("work loop", CG + ":Collagraph.work_loop / request_idle_work / state_updated"),
    state=[
        ("work in progress", "the partially built fiber tree that awaits a next slice")
    ],
)
prop(
    "C12",
    "The container never shows a partially applied update",
    "While an update is being prepared over several iterations of the event loop, the "
    "container (and everything attached to it: order, attributes, text, listeners) stays "
    "exactly as it was; then all changes are applied within one iteration. An observer that "
    "looks in between iterations sees either the complete previous or the complete next "
    "rendering.",
    ["schedules", "histories"],
    "For all placements of yields between units of work: every loop iteration observed.",
    "The tests only look at the container when all work is done.",
    [CG],
    ("commit", CG + ":Collagraph.work_loop / commit_root"),
    ("creation of elements", CG + ":Collagraph.create_dom"),
)
prop(
    "C13",
    "State changes by hooks, handlers, watchers and constructors are handled properly",
    "State changes made from within mounted, updated and before_unmount hooks, from event "
    "handlers and emitted events, callbacks of watchers, or from the constructor of a "
    "component that is created during the update, are never lost and never corrupt the update in progress. After a "
    "bounded number of follow-up updates the container equals a fresh render of the "
    "final state and every hook was still called exactly as its component's life requires.",
    ["histories", "schedules", "programs"],
    "For all placements of (finitely many) state changes in hooks, handlers, "
    "watchers and constructors of nested components, with both event loop types.",
    "One test changes state in mounted; combinations of several hooks across components "
    "and of hooks with removals are not reached.",
    [CG],
    ("state updates during work", CG + ":Collagraph.state_updated / commit_root"),
)
prop(
    "C14",
    "Instances of Collagraph are independent of each other",
    "Several Collagraph instances in one process, with their own or a shared renderer, "
    "rendering the same or different components with shared or separate reactive state, "
    "each keep their own container up to date: changes to state that only one of them "
    "uses lead to operations on the elements of that one only, shared state updates all "
    "of them, and component instances are never shared.",
    ["histories", "configurations"],
    "For all sets of instances and interleavings of their renders and state changes.",
    "Every test uses a single instance.",
    [CG, CO, CGX],
    ("instance state", CG + ":Collagraph.__init__"),
    ("component lookups", CO + ":Component._lookup"),
)
prop(
    "C15",
    "Only changes to data that was used cause work",
    "A change to reactive data that no rendered component, prop, attribute or handler "
    "depends on causes no component to be rendered and no renderer call. A change to "
    "data that the latest render did depend on always leads to an update, also when "
    "that dependency first appeared in a later render than the first.",
    ["histories", "programs"],
    "For all programs with conditional dependencies and all histories of writes.",
    "Tests only change state that is used unconditionally.",
    [CG],
    ("watchers", CG + ":watch / NotifyChangeWatcher"),
)
prop(
    "C16",
    "Removed components and elements are released",
    "Collagraph doesn't hold on to what has been removed: throughout any history of "
    "updates the number of live component instances, elements and handlers stays bounded "
    "by a constant plus a small multiple of the largest tree that was rendered, "
    "independent of the length of the history. Everything is released once the "
    "Collagraph instance itself has been dropped.",
    ["histories"],
    "For all histories with churn of components, elements and handlers.",
    "No test looks at memory.",
    [CG, CO],
    ("fiber alternates", CG + ":Collagraph.reconcile_children / commit_deletion"),
)
prop(
    "C17",
    "Deep and wide trees are handled without failure",
    "Trees that are thousands of levels deep or thousands of siblings wide (elements, "
    "fragments, components) can be rendered, updated, reordered and removed: the result "
    "equals the description, hooks are called, and no recursion or size limit is hit.",
    ["inputs"],
    "For all tree shapes (chains, combs, wide lists) up to sizes beyond the recursion "
    "limit of the interpreter.",
    "The tests render trees of at most a few levels.",
    [CG],
    ("iterative work loop", CG + ":Collagraph.perform_unit_of_work / commit_root"),
)
prop(
    "C18",
    "The render callback runs after every update, when everything is in place",
    "The callback that's passed to Collagraph.render is called after each update (the "
    "first one, updates because of changes of state, and another render), once all the "
    "changes are in the container and the hooks have been called, and nothing changes "
    "anymore after its last call: when the instance is idle, the callback has seen "
    "exactly the present content. It isn't called when there was no update, nor after "
    "it has been replaced by a later render. Changes of state by the callback itself "
    "lead to an update (and a call) as well.",
    ["histories", "schedules"],
    "For all histories of updates, on both types of event loop, and all moments at "
    "which changes are made (also by hooks and the callback).",
    "The tests never pass a callback; the examples rely on it to draw the scene.",
    [CG],
    ("end of the work loop", CG + ":Collagraph.work_loop / render"),
)
prop(
    "C20",
    "Template directives render as specified for all templates and data",
    "For every CGX template, the rendered tree equals the meaning of its elements and "
    "directives: static and bound attributes (with v-bind of a dictionary merged in "
    "order, the last one prevailing), flag attributes as True, chains of v-if, "
    "v-else-if and v-else (the first true branch), v-for with one or more loops, "
    "unpacking and conditions, v-on/@ handlers, template tags, comments and nested "
    "combinations, at the position of the tag among its siblings; and it stays so when "
    "the data changes.",
    ["programs", "inputs", "histories"],
    "For all templates composed of the directives over all data, and all data changes.",
    "About twenty template files with one directive each are tested with one dataset.",
    [CGX],
    ("conversion of nodes", CGX + ":convert_node_to_args / create_control_flow_ast"),
)
prop(
    "C21",
    "Names in templates resolve with the documented precedence, per instance",
    "A name in a template expression resolves, at the moment it is evaluated, to a local "
    "name (loop variable, lambda parameter), imported name or `self` (the component), or "
    "else to the first of "
    "props, state, attribute of the component and global of the script that has it; names "
    "that don't exist anywhere raise a NameError that mentions the name. This is decided "
    "for each instance and each evaluation separately: instances with different props or "
    "state, or names that appear or disappear later on, never influence each other.",
    ["programs", "histories"],
    "For all assignments of names to props, state, attributes, globals and imports over "
    "several instances and over time.",
    "One component with one instance and fixed names is tested.",
    [CO, CGX],
    ("lookup", CO + ":Component._lookup"),
    ("rewriting of names", CGX + ":RewriteName"),
)
prop(
    "C22",
    "Expressions in templates follow Python scoping",
    "Expressions in bound attributes, directives, mustaches and handlers evaluate just "
    "like the same Python expression would with the component's names in scope: "
    "parameters of lambdas (with defaults), variables of list, set and dict "
    "comprehensions and generators, and v-for variables shadow outer names in their own "
    "scope only; lambdas and slots within v-for see the values of their own item, whenever "
    "they are called.",
    ["programs", "inputs"],
    "For all expressions composed of lambdas, comprehensions, calls, subscripts, "
    "attributes, f-strings and operators, nested in any v-for structure.",
    "A few lambdas and one comprehension are tested.",
    [CGX],
    ("rewriting of names", CGX + ":RewriteName / NameCollector"),
)
prop(
    "C23",
    "Text in templates is interpolated faithfully",
    "A text element renders the text of the template with every {{ expression }} replaced "
    "by str() of its value, all other characters unchanged and in order, for any number "
    "of expressions in any position, and follows later changes of the data. "
    "Whitespace-only text and comments render nothing, in any place.",
    ["inputs", "histories"],
    "For all texts with any number of expressions and all values.",
    "Tests have two texts with three expressions in total.",
    [CGX],
    ("text elements", CGX + ":args_for_text_element / CGXParser.handle_data"),
)
prop(
    "C24",
    "Template slots render passed content, or the fallback content otherwise",
    "A slot tag renders the content that the parent's template provides for its name "
    "(v-slot:name, #name, or all other content for the default slot), evaluated with "
    "the parent's names; only when the parent provides nothing for that name, the "
    "children of the slot tag are rendered instead. This holds for slots as root, in "
    "nested elements, in v-for and v-if branches, for slots that are passed on to "
    "other components, and follows later changes of the parent's data.",
    ["programs", "histories"],
    "For all pairs of component templates with slots and parents passing content.",
    "A few static templates are tested.",
    [CGX],
    ("slots", CGX + ":call_render_slot / convert_node_to_args"),
)
prop(
    "C25",
    "Line numbers of CGX code match the file",
    "For every CGX file, whatever precedes and follows the script and template blocks, "
    "the code from the script tag reports the file's own name and line numbers: in "
    "tracebacks of exceptions at import or at run time, in function code objects, and in "
    "syntax errors. The render function that is made from the template isn't located "
    "within the lines of the script.",
    ["inputs"],
    "For all layouts of CGX files: order of blocks, leading lines, comments, position of "
    "the first statement, multi-line statements and decorators.",
    "One test checks that the render function is outside of the script.",
    [CGX],
    ("source locations", CGX + ":get_script_ast / construct_ast"),
)
prop(
    "C26",
    "CGX files import like modules and malformed components are rejected",
    "A .cgx file on the import path (top-level or in a package) can be imported like a "
    "Python module: the component is the last class of the script and is available "
    "together with all other names of the script, with __name__ and __file__ set "
    "properly, one module per name and Python modules taking precedence. A file with no or "
    "more than one root element in the template, or whose last class isn't a "
    "Component, is rejected with a ValueError and leaves no usable module behind.",
    ["inputs", "configurations"],
    "For all module names, package layouts, sys.path orders, scripts and malformed files.",
    "The tests import two fixed files.",
    [IMP, CGX],
    ("importer", IMP + ":CgxImporter.find_spec / exec_module"),
    ("validation", CGX + ":load_from_string / construct_ast"),
)
prop(
    "R30",
    "DictRenderer keeps its dictionaries faithful for every operation sequence",
    "After any valid sequence of renderer operations, the dictionaries of DictRenderer "
    "hold exactly the children (in order, by identity, also when equal elements are "
    "present), attributes, text and event listeners that the operations prescribe, and "
    "operations touch only the elements that they name.",
    ["histories"],
    "For all valid operation sequences, including elements that are equal as "
    "dictionaries.",
    "Only used through tests with distinct elements.",
    [DICT],
    ("operations", DICT + ":DictRenderer"),
)
prop(
    "R31",
    "DomRenderer maps operations onto the DOM API faithfully",
    "After any valid sequence of renderer operations the DOM tree holds exactly the "
    "prescribed nodes in order, attributes, text and listeners, and only calls that are "
    "valid in the DOM API are made; rendering with Collagraph into a DOM results in "
    "the described document after every update.",
    ["histories"],
    "For all valid operation sequences against a strict model of the DOM.",
    "The DomRenderer isn't tested at all, since it needs a browser.",
    [DOM],
    ("operations", DOM + ":DomRenderer"),
)
prop(
    "R32",
    "PySide widget trees mirror the description through any history",
    "After every update the Qt widget hierarchy mirrors the description: children of "
    "widgets (in box, grid, form and stacked layouts), splitters, tabs, group boxes, scroll "
    "areas, button boxes, docks and windows are exactly the described ones, in the described order or "
    "place, the same Qt objects as long as they are described with the same key, and "
    "removed children are no longer part of the hierarchy.",
    ["histories", "programs"],
    "For all histories of inserting, removing and reordering keyed children of each "
    "kind of container.",
    "Tests render each kind of container once and remove or insert a single child.",
    [QT, OBJ + "widget.py", OBJ + "layouts.py", OBJ + "splitter.py", OBJ + "tab.py"],
    ("insert/remove", OBJ + "*.py"),
)
prop(
    "R33",
    "PySide attributes are set, updated and restored faithfully",
    "Every attribute of a described Qt element (properties in kebab- or snake-case, "
    "multi-argument setters, size, layout settings, combobox items, custom attributes) is "
    "applied at creation and at each change; removing an attribute that is a Qt property "
    "restores the value that it had for a new element, and other attributes and elements "
    "are left alone.",
    ["histories", "inputs"],
    "For all histories of attribute dictionaries over the supported element types.",
    "Tests set and remove two or three attributes.",
    [QT, OBJ + "qobject.py", OBJ + "widget.py", OBJ + "layouts.py", OBJ + "combobox.py"],
    ("set/remove attribute", QT + ":PySideRenderer.set_attribute / remove_attribute"),
)
prop(
    "R34",
    "PySide signals and events call exactly the current handlers",
    "Emitting a Qt signal, or sending a Qt event to a widget, calls the handler that the "
    "latest render specified exactly once (with the signal's arguments where the handler "
    "accepts them) and never handlers of earlier renders, of other elements or that have "
    "been removed; for functions, lambdas, partials and bound methods. Widgets still "
    "handle the events themselves (keys that are typed, for instance).",
    ["histories", "inputs"],
    "For all histories of handlers for signals and events on Qt elements.",
    "Tests click a button with one handler.",
    [QT],
    ("listeners", QT + ":PySideRenderer.add_event_listener / remove_event_listener"),
    ("event filter", QT + ":EventFilter"),
)
prop(
    "R35",
    "PySide models, tree items, menus and toolbars mirror the description",
    "After every update the rows of item models and standard items, the item and "
    "selection models of views, the items of tree widgets (with texts, expanded and "
    "selected state), the entries of menus and menu bars and the contents of toolbars "
    "are exactly the described ones in the described order. Submenus and nested items "
    "keep their own content and state when they or their siblings move, appear or "
    "disappear, and removing any of them doesn't crash.",
    ["histories", "programs"],
    "For all histories of nested keyed items, actions, submenus and widgets.",
    "Tests render one static menu and model and update one of them once.",
    [
        OBJ + "itemmodel.py",
        OBJ + "standarditem.py",
        OBJ + "treewidget.py",
        OBJ + "treewidgetitem.py",
        OBJ + "menu.py",
        OBJ + "menubar.py",
        OBJ + "toolbar.py",
    ],
    ("insert/remove", OBJ + "*.py"),
)
prop(
    "R36",
    "Pygfx scenes mirror the description through any history",
    "After every update the children of the world objects in a pygfx scene are exactly "
    "the described ones in order, every (dotted) attribute has the described value, "
    "removed attributes have the default value of a new object of that type again, "
    "and pygfx events reach exactly the current handlers.",
    ["histories", "inputs"],
    "For all histories of trees of world objects with attributes and handlers.",
    "Tests render and update one object with a couple of attributes.",
    [GFX],
    ("operations", GFX + ":PygfxRenderer"),
)
prop(
    "R37",
    "Custom PySide elements and methods dispatch to the most specific registration",
    "The name of an element or a layout resolves to the class that is registered with "
    "that name (or the built-in alias), regardless of case, dashes and underscores, or "
    "else to the Qt class with that name, regardless of case; elements and layouts may "
    "share a name. Insert, remove and set-attribute operations on an element use the "
    "function that is registered for the most derived class in its ancestry, whatever "
    "the order of registration; custom attributes apply to every element; types that "
    "aren't widgets or layouts are rejected and unknown names raise a TypeError.",
    ["configurations", "inputs"],
    "For all class hierarchies, registration orders and spellings of names.",
    "Tests register one custom widget.",
    [QT],
    ("registration", QT + ":PySideRenderer.register_* / class_hierarchy / name_to_type"),
)
prop(
    "R38",
    "In Qt's event loop every change ends up in the widgets, as one update",
    "A PySide application with the default settings, that only runs the event loop of Qt, "
    "shows every change of state, whether it's made by a signal of a widget, a timer, an "
    "asyncio task, a watcher or an ordinary function, before or during earlier updates: "
    "eventually all windows show what belongs to the latest state. When the state "
    "doesn't change during an update, then everything that's visible in between "
    "events is either the complete previous or the complete next content of the window.",
    ["schedules", "inputs"],
    "For all user interfaces, sources and moments of changes and speeds of the machine.",
    "Tests wait a fixed time for a few updates with one source of changes.",
    [QT, CG],
    ("register", QT + ":PySideRenderer.register_asyncio / preferred_event_loop_type"),
    ("work", CG + ":Collagraph.request_idle_work / work_loop"),
)
prop(
    "T40",
    "The command line accepts exactly valid components and state",
    "The collagraph command rejects (with a usage error, before anything is rendered) "
    "component paths that don't exist, aren't files or aren't .cgx files, state that is "
    "neither a valid JSON object nor a file with a valid JSON object, and renderers that "
    "are unknown or of which the toolkit can't be imported; otherwise the component is "
    "rendered once, with precisely the given state as its props, by the chosen renderer, "
    "and what's rendered keeps up with later changes of its state and props.",
    ["inputs"],
    "For all paths, suffixes, JSON documents (inline or in a file) and renderers.",
    "The command line isn't tested.",
    [CLI],
    ("argument types", CLI + ":existing_component_file / json_contents / run"),
)
prop(
    "T41",
    "The PyInstaller hook collects every import of every CGX file",
    "For every package that uses collagraph, the hook adds as hidden imports all "
    "modules imported in the scripts of all CGX files (in any subfolder, in any form "
    "of import statement, relative ones included, and at any nesting within the script), "
    "and no names that they don't mention, and adds all CGX files of the package as data.",
    ["inputs"],
    "For all package trees with CGX files and all forms of import statements.",
    "The hook isn't tested for imports in nested folders or code.",
    [PYI, CGX],
    ("collection of imports", PYI + ":collect_hidden_imports / ImportsCollector"),
)

for p in P:
    print(json.dumps(p))
