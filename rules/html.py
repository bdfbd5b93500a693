"""HTML layer tables: every element type, input constructor and event method is evaluated
symbolically from the compiled program; what it asks the DOM for and the static type it hands
out are compared with the HTML and UI-events standards (tag -> interface, event -> interface)."""
from common import *

# tag -> chain of interfaces (most derived first) below HtmlElement, per the HTML standard
IF = {
    "a": "HtmlAnchorElement", "area": "HtmlAreaElement", "audio": "HtmlAudioElement HtmlMediaElement",
    "b": "", "i": "", "br": "HtmlBrElement", "base": "HtmlBaseElement", "button": "HtmlButtonElement",
    "canvas": "HtmlCanvasElement", "dl": "HtmlDListElement", "data": "HtmlDataElement",
    "datalist": "HtmlDataListElement", "dialog": "HtmlDialogElement", "div": "HtmlDivElement",
    "embed": "HtmlEmbedElement", "fieldset": "HtmlFieldSetElement", "form": "HtmlFormElement",
    "frameset": "HtmlFrameSetElement", "hr": "HtmlHrElement",
    "h1": "HtmlHeadingElement", "h2": "HtmlHeadingElement", "h3": "HtmlHeadingElement",
    "h4": "HtmlHeadingElement", "h5": "HtmlHeadingElement", "h6": "HtmlHeadingElement",
    "iframe": "HtmlIFrameElement", "img": "HtmlImageElement", "input": "HtmlInputElement",
    "li": "HtmlLiElement", "label": "HtmlLabelElement", "legend": "HtmlLegendElement", "link": "HtmlLinkElement",
    "map": "HtmlMapElement", "meta": "HtmlMetaElement", "meter": "HtmlMeterElement", "ol": "HtmlOListElement",
    "object": "HtmlObjectElement", "optgroup": "HtmlOptGroupElement", "option": "HtmlOptionElement",
    "output": "HtmlOutputElement", "p": "HtmlParagraphElement", "picture": "HtmlPictureElement",
    "pre": "HtmlPreElement", "progress": "HtmlProgressElement", "q": "HtmlQuoteElement",
    "blockquote": "HtmlQuoteElement", "select": "HtmlSelectElement", "source": "HtmlSourceElement",
    "span": "HtmlSpanElement", "style": "HtmlStyleElement", "th": "HtmlTableCellElement",
    "td": "HtmlTableCellElement", "col": "HtmlTableColElement", "colgroup": "HtmlTableColElement",
    "caption": "HtmlTableCaptionElement", "table": "HtmlTableElement", "tr": "HtmlTableRowElement",
    "thead": "HtmlTableSectionElement", "tfoot": "HtmlTableSectionElement", "tbody": "HtmlTableSectionElement",
    "template": "HtmlTemplateElement", "textarea": "HtmlTextAreaElement", "time": "HtmlTimeElement",
    "track": "HtmlTrackElement", "ul": "HtmlUListElement", "video": "HtmlVideoElement HtmlMediaElement",
    "del": "HtmlModElement", "ins": "HtmlModElement", "script": "HtmlScriptElement", "title": "HtmlTitleElement",
    "menu": "HtmlMenuElement", "slot": "HtmlSlotElement", "html": "HtmlHtmlElement", "head": "HtmlHeadElement",
    "body": "HtmlBodyElement",
}
for _t in ("abbr address article aside bdi bdo cite code dd dfn dt em figcaption figure footer header hgroup kbd "
           "main mark nav noscript rp rt ruby s samp search section small strong sub summary sup u var wbr").split():
    IF.setdefault(_t, "")
BASES = ["HtmlElement", "Element", "Node", "EventTarget"]

# public type name -> tag; a type not listed must be called after its tag
NAMES = {"Anchor": "a", "Bold": "b", "Italic": "i", "Paragraph": "p", "Quote": "q"}
VOID = set("area base br embed hr input link meta source track wbr".split())

# event -> interface chain below Event (UI Events, HTML, Pointer/Touch events)
MOUSE = "MouseEvent UiEvent"
EV = {}
for _e in "cancel error scroll securitypolicyviolation select fullscreenchange fullscreenerror change load".split():
    EV[_e] = ""
EV["securitypolicyviolation"] = "SecurityPolicyViolationEvent"
EV["wheel"] = "WheelEvent " + MOUSE
for _e in "compositionend compositionstart compositionupdate".split():
    EV[_e] = "CompositionEvent UiEvent"
for _e in "blur focus focusin focusout".split():
    EV[_e] = "FocusEvent UiEvent"
for _e in "keydown keyup keypress".split():
    EV[_e] = "KeyboardEvent UiEvent"
for _e in "mousedown mouseenter mouseleave mousemove mouseout mouseover mouseup".split():
    EV[_e] = MOUSE
# delivered as PointerEvent (a MouseEvent) by current browsers, MouseEvent by older ones
for _e in "auxclick click contextmenu dblclick".split():
    EV[_e] = MOUSE
for _e in "touchcancel touchend touchmove touchstart".split():
    EV[_e] = "TouchEvent UiEvent"
EV["input"] = "InputEvent UiEvent"
for _e in "drag dragend dragenter dragleave dragover dragstart drop".split():
    EV[_e] = "DragEvent " + MOUSE


def tyname(t):
    return t.n.split("::")[-1] if t.k == "adt" else t.s


def peel(v):
    """strip conversions that keep the identity of a DOM object"""
    for _ in range(20):
        if not isinstance(v, tuple) or not v:
            return v
        if v[0] == "proj" and v[2] in ((("v", "Ok"), ("f", "0")), (("v", "Some"), ("f", "0"))):
            v = v[1]
        elif v[0] == "sym" and len(v) > 3 and v[2] in ("Into::into", "From::from", "Clone::clone", "ToOwned::to_owned",
                                                       "JsCast::unchecked_into", "AsRef::as_ref", "Deref::deref",
                                                       "JsCast::unchecked_ref", "JsCast::dyn_into", "JsCast::dyn_ref", "Cow::into_owned") and v[3]:
            v = v[3][0]
        elif v[0] == "clone":
            v = v[1]
        elif v[0] == "ref" and v[1][0][0] == "D" and not v[1][1]:
            v = v[1][0][1]
        else:
            return v
    return v


def field_of_self(v, field):
    """v denotes (a handle to) self.<field>"""
    v = peel(v)
    want = (self_place(1), (("f", field),))
    return v in (("ref", want), ("init", want))


def receiver(v):
    """v denotes (a handle to) *self"""
    return peel(v) in (("init", (("L", 0, 1), ())), ("ref", (self_place(1), ())), ("init", (self_place(1), ())))


def element_fields(F, a):
    fs = a["variants"][0]["fields"]
    return [(f["name"], a["crate"].tys[f["ty"]]) for f in fs if "web_sys" in a["crate"].tys[f["ty"]].s]


def elements(F, rep):
    """Obligations: for every public node type of the HTML crate, (1) `new`/`default` make exactly one
    element, with the tag the type is documented for, and hand out that element; (2) the static type of
    the handle is the tag's DOM interface or one of its bases; (3) `render` wraps that same element in a
    container together with the caller's future (or a never-ending one); (4) deref/as_ref give that
    element; (5) `Input::new_x` sets type x on the element it returns."""
    crate = F.crates.get("async_ui_web_html")
    if not rep.anchor(crate, "async_ui_web_html", "crate async_ui_web_html"):
        return
    ntypes = nfn = 0
    for a in F.adts.values():
        if a["crate"] is not crate or len(a["variants"]) != 1:
            continue
        ef = element_fields(F, a)
        if len(ef) != 1 or len(a["variants"][0]["fields"]) != 1:
            continue
        field, fty = ef[0]
        T = a["name"] if "name" in a and "::" not in a["name"] else a["id"].split("::")[-1]
        T = T.split("::")[-1]
        fns = [f for f in crate.fns if f.self_ty is not None and f.self_ty.k == "adt" and f.self_ty.n == a["id"]
               and f.vis == "Public"]
        if not fns:
            continue
        ntypes += 1
        custom = False
        tag = None
        if T == "Text" and tyname(fty) == "Text":
            kind = "text"
        else:
            kind = "element"
            tag = NAMES.get(T, T.lower())
            custom = any(f.name.endswith("::new") and f.argc == 1 for f in fns)
        if kind == "element" and not custom:
            if not rep.check(tag in IF, "E01:%s:known-tag" % T, "node type %s has no HTML tag <%s>" % (T, tag), fns[0].loc):
                continue
            ok = tyname(fty) in IF[tag].split() + BASES
            rep.check(ok, "E01:%s:interface" % T,
                      "%s makes <%s>, whose DOM interface is %s, but hands it out as %s" % (
                          T, tag, (IF[tag] or "HtmlElement").split()[0], tyname(fty)), fns[0].loc)
        elif custom:
            rep.check(tyname(fty) in BASES, "E01:%s:interface" % T,
                      "%s can be any tag but hands it out as %s" % (T, tyname(fty)), fns[0].loc)
        for f in fns:
            last = f.id.rsplit("::", 1)[-1]
            try:
                m = run_trace(F, rep, f, keys=None, opaque=("ContainerNodeFuture::new", "ContainerNodeFuture::new_root"))
            except Incomplete as e:
                rep.undecided("E01:%s:%s" % (T, last), str(e), f.loc)
                continue
            nfn += 1
            out = f.crate.tys[f.j["output"]] if f.j.get("output") is not None else None
            isself = out is not None and out.k == "adt" and out.n == a["id"]
            for val, st, env in m.rets:
                if isself:
                    made = [c for c in st if c[0] in ("Document::create_element", "Document::create_text_node",
                                                      "Document::create_element_ns")]
                    key = "E01:%s:%s" % (T, last)
                    h = peel(val.get((("f", field),), TOP))
                    if kind == "text":
                        good = len(made) == 1 and made[0][0] == "Document::create_text_node"
                        rep.check(good and h[0] == "sym" and h[2] == "Document::create_text_node", key + ":makes",
                                  "%s::%s must make one text node and hand it out" % (T, last), f.loc)
                        if good:
                            rep.check(strv(made[0][1][1]) == "", key + ":empty",
                                      "a new text node must start empty", f.loc)
                        continue
                    if not rep.check(len(made) == 1 and made[0][0] == "Document::create_element", key + ":makes",
                                     "%s::%s must create exactly one element, creates %d" % (T, last, len(made)), f.loc):
                        continue
                    if custom:
                        arg = peel(made[0][1][1])
                        rep.check(contains(arg, lambda x: x == ("init", (("L", 0, 1), ())) or x == (("L", 0, 1), ())),
                                  key + ":tag",
                                  "%s::%s must use the caller's tag name" % (T, last), f.loc)
                    else:
                        got = strv(made[0][1][1])
                        if got is None:
                            rep.undecided(key + ":tag", "tag name is not a constant", f.loc)
                        else:
                            rep.check(got.lower() == tag, key + ":tag",
                                      "%s::%s creates <%s>, documented as <%s>" % (T, last, got, tag), f.loc)
                    rep.check(h[0] == "sym" and h[2] == "Document::create_element", key + ":handle",
                              "the handle returned by %s::%s is not the element it created" % (T, last), f.loc)
                    if T == "Input" and last.startswith("new_"):
                        ty = last[4:].replace("_", "-")
                        sets = [c for c in st if c[0].endswith("::set_type")] or [
                            (c[0], c[1][:1] + c[1][2:]) for c in st if c[0].endswith("::set_attribute") and (strv(c[1][1]) or "").lower() == "type"]
                        rep.check(len(sets) >= 1 and strv(sets[-1][1][1]) == ty, key + ":type",
                                  "Input::%s must set type=\"%s\" (sets %s)" % (
                                      last, ty, [strv(c[1][1]) for c in sets]), f.loc)
                elif last == "render":
                    news = [c for c in st if c[0] in ("ContainerNodeFuture::new", "ContainerNodeFuture::new_root")]
                    key = "E01:%s:render" % T
                    good = len(news) == 1 and news[0][0] == "ContainerNodeFuture::new"
                    rep.check(good and val[()][0] == "sym" and val[()][2] == "ContainerNodeFuture::new", key,
                              "%s::render must return one container future" % T, f.loc)
                    if good:
                        rep.check(field_of_self(news[0][1][1], field), key + ":node",
                                  "%s::render must place this object's own node" % T, f.loc)
                        ch = news[0][1][0]
                        if f.argc >= 2:
                            rep.check(ch == ("init", (("L", 0, 2), ())), key + ":child",
                                      "%s::render must run the caller's future inside" % T, f.loc)
                        else:
                            rep.check(ch[0] == "sym" and ch[2] == "pending::pending" or ch[0] == "sym" and "pending" in ch[2],
                                      key + ":child", "%s::render without children must never complete" % T, f.loc)
                elif last in ("deref", "as_ref"):
                    v = val[()]
                    rep.check(field_of_self(v, field), "E01:%s:%s" % (T, last),
                              "%s::%s must give this object's own node" % (T, last), f.loc)
    rep.floor("node_types", ntypes, 66)
    rep.floor("functions", nfn, 340)


def events(F, rep):
    """Obligations: for every default method of the public event traits whose name is until_<event>,
    (1) the subscription is created for exactly that event name, on the receiver itself; (2) the static
    event type is the event's interface or a base of it; and `until_event` itself passes on the
    receiver and the caller's name."""
    crate = F.crates.get("async_ui_web_html")
    if not rep.anchor(crate, "async_ui_web_html", "crate async_ui_web_html"):
        return
    n = 0
    for f in crate.fns:
        last = f.id.rsplit("::", 1)[-1]
        if f.kind not in ("AssocFn",) or not last.startswith("until_") or not f.j.get("in_trait"):
            continue
        if last == "until_event":
            continue
        n += 1
        name = last[len("until_"):]
        key = "E02:" + last
        out = f.crate.tys[f.j["output"]]
        evty = out.a[0] if out.k == "adt" and out.a else None
        if name not in EV:
            rep.check(evty is not None and tyname(evty) == "Event", key + ":interface",
                      "event %s is in no table of this rule and is not handed out as plain Event" % name, f.loc)
        else:
            rep.check(evty is not None and tyname(evty) in EV[name].split() + ["Event"], key + ":interface",
                      "event %s carries %s, but %s hands it out as %s" % (
                          name, (EV[name] or "Event").split()[0], last, evty and tyname(evty)), f.loc)
        try:
            m = run_trace(F, rep, f, opaque=("EmitEvent::until_event", "EventFutureStream::new"))
        except Incomplete as e:
            rep.undecided(key, str(e), f.loc)
            continue
        for val, st, env in m.rets:
            subs = [c for c in st if c[0] in ("EmitEvent::until_event", "EventFutureStream::new")]
            if not rep.check(len(subs) == 1, key + ":subscribe", "%s must make one subscription" % last, f.loc):
                continue
            got = strv(subs[0][1][1])
            if got is None:
                rep.undecided(key + ":name", "event name is not a constant", f.loc)
            else:
                rep.check(got == name, key + ":name", "%s subscribes to \"%s\"" % (last, got), f.loc)
            rep.check(receiver(subs[0][1][0]),
                      key + ":target", "%s must subscribe on its receiver" % last, f.loc)
            rep.check(val[()][0] == "sym" and val[()][2] in ("EmitEvent::until_event", "EventFutureStream::new"),
                      key + ":result", "%s must return that subscription" % last, f.loc)
    rep.floor("event_methods", n, 42)
    for i in F.trait_impls("EmitEvent"):
        f = F.impl_fn(i, "until_event")
        if not rep.anchor(f, "until_event", "EmitEvent::until_event"):
            continue
        m = run_trace(F, rep, f, opaque=("EventFutureStream::new",))
        for val, st, env in m.rets:
            subs = [c for c in st if c[0] == "EventFutureStream::new"]
            rep.check(len(subs) == 1 and val[()][0] == "sym" and val[()][2] == "EventFutureStream::new", "E02:until_event",
                      "until_event must make one subscription and return it", f.loc)
            for c in subs:
                rep.check(peel(c[1][1]) in (("init", (("L", 0, 2), ())), ("ref", (("L", 0, 2), ()))),
                          "E02:until_event:name", "until_event must use the caller's event name", f.loc)
                rep.check(receiver(c[1][0]),
                          "E02:until_event:target", "until_event must listen on its receiver", f.loc)
