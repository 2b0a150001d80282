'use strict';
// A document as a browser keeps it, without layout: enough of the DOM for a page to run on.

const VOID = new Set('area base br col embed hr img input link meta param source track wbr'.split(' '));
const RAW = new Set(['script', 'style', 'textarea', 'title']);
const ENTITIES = { lt: '<', gt: '>', amp: '&', quot: '"', apos: "'", nbsp: '\u00a0', ndash: '\u2013', mdash: '\u2014', hellip: '\u2026', times: '\u00d7', copy: '\u00a9' };

function unescape(s) {
    return s.replace(/&(#x[0-9a-f]+|#[0-9]+|[a-z]+);/gi, (all, e) => {
        if (e[0] === '#') return String.fromCodePoint(/^#x/i.test(e) ? parseInt(e.slice(2), 16) : parseInt(e.slice(1), 10));
        return e in ENTITIES ? ENTITIES[e] : all;
    });
}
const escapeText = s => s.replace(/&/g, '&amp;').replace(/</g, '&lt;').replace(/>/g, '&gt;');

class EventTarget {
    addEventListener(type, f, options) {
        if (!f) return;
        this._on = this._on || {};
        const l = (this._on[type] = this._on[type] || []);
        if (!l.some(x => x.f === f)) l.push({ f, once: !!(options && options.once) });
    }
    removeEventListener(type, f) {
        if (this._on && this._on[type]) this._on[type] = this._on[type].filter(x => x.f !== f);
    }
    _fire(ev) {
        ev.currentTarget = this;
        const call = f => {
            try {
                if (typeof f === 'function') return f.call(this, ev);
                return f.handleEvent(ev);
            } catch (e) {
                this._report(e);
            }
        };
        const prop = this['on' + ev.type];
        if (typeof prop === 'function' && call(prop) === false) ev.preventDefault();
        else if (prop === undefined && this._attrs && this._attrs.has('on' + ev.type)) {
            if (call(this.ownerDocument._compile(this._attrs.get('on' + ev.type))) === false) ev.preventDefault();
        }
        for (const x of ((this._on || {})[ev.type] || []).slice()) {
            if (ev._stopNow) break;
            if (x.once) this.removeEventListener(ev.type, x.f);
            call(x.f);
        }
    }
    _report(e) {
        (this._errors || []).push(String(e));
    }
    dispatchEvent(ev) {
        ev.target = this;
        this._fire(ev);
        return !ev.defaultPrevented;
    }
}

class Event {
    constructor(type, init) {
        this.type = type;
        this.bubbles = false;
        this.cancelable = false;
        this.composed = false;
        this.defaultPrevented = false;
        this.target = null;
        this.currentTarget = null;
        this.isTrusted = true;
        this.timeStamp = 0;
        Object.assign(this, init || {});
    }
    preventDefault() { this.defaultPrevented = true; }
    stopPropagation() { this._stop = true; }
    stopImmediatePropagation() { this._stop = this._stopNow = true; }
    get srcElement() { return this.target; }
    getModifierState(k) { return k === 'Control' && !!this.ctrlKey; }
    composedPath() { return []; }
}

class Node extends EventTarget {
    constructor(doc) {
        super();
        this.ownerDocument = doc;
        this.parentNode = null;
        this.childNodes = [];
    }
    _report(e) { this.ownerDocument._report(e); }
    get parentElement() { return this.parentNode instanceof Element ? this.parentNode : null; }
    get firstChild() { return this.childNodes[0] || null; }
    get lastChild() { return this.childNodes[this.childNodes.length - 1] || null; }
    _sibling(d, list) { const l = list || (this.parentNode ? this.parentNode.childNodes : []); return l[l.indexOf(this) + d] || null; }
    get nextSibling() { return this.parentNode ? this._sibling(1) : null; }
    get previousSibling() { return this.parentNode ? this._sibling(-1) : null; }
    get children() { return this.childNodes.filter(n => n instanceof Element); }
    get childElementCount() { return this.children.length; }
    get firstElementChild() { return this.children[0] || null; }
    get lastElementChild() { const c = this.children; return c[c.length - 1] || null; }
    get nextElementSibling() { return this.parentNode ? this._sibling(1, this.parentNode.children) : null; }
    get previousElementSibling() { return this.parentNode ? this._sibling(-1, this.parentNode.children) : null; }
    get isConnected() { let n = this; while (n.parentNode) n = n.parentNode; return n === this.ownerDocument; }
    hasChildNodes() { return this.childNodes.length > 0; }
    contains(n) { for (; n; n = n.parentNode) if (n === this) return true; return false; }
    getRootNode() { let n = this; while (n.parentNode) n = n.parentNode; return n; }
    _adopt(nodes) {
        const out = [];
        for (let n of nodes) {
            if (!(n instanceof Node)) n = new Text(this._doc(), String(n));
            if (n instanceof Fragment) { out.push(...n.childNodes); n.childNodes.forEach(c => (c.parentNode = null)); n.childNodes = []; }
            else out.push(n);
        }
        for (const n of out) {
            if (n.contains(this)) throw new Error('HierarchyRequestError');
            if (n.parentNode) n.parentNode._drop(n);
        }
        return out;
    }
    _doc() { return this.ownerDocument || this; }
    _drop(n) { this.childNodes.splice(this.childNodes.indexOf(n), 1); n.parentNode = null; }
    _put(nodes, at) {
        nodes.forEach(n => (n.parentNode = this));
        this.childNodes.splice(at, 0, ...nodes);
    }
    append(...nodes) { const l = this._adopt(nodes); this._put(l, this.childNodes.length); }
    prepend(...nodes) { const l = this._adopt(nodes); this._put(l, 0); }
    appendChild(n) { this.append(n); return n; }
    insertBefore(n, before) {
        const l = this._adopt([n]);
        this._put(l, before ? this.childNodes.indexOf(before) : this.childNodes.length);
        return n;
    }
    removeChild(n) {
        if (n.parentNode !== this) throw new Error('NotFoundError');
        this._drop(n);
        return n;
    }
    replaceChild(n, old) { this.insertBefore(n, old); return this.removeChild(old); }
    remove() { if (this.parentNode) this.parentNode._drop(this); }
    before(...nodes) { nodes.forEach(n => this.parentNode.insertBefore(n instanceof Node ? n : new Text(this._doc(), String(n)), this)); }
    after(...nodes) { const next = this.nextSibling, p = this.parentNode; nodes.forEach(n => p.insertBefore(n instanceof Node ? n : new Text(this._doc(), String(n)), next)); }
    replaceWith(...nodes) { this.before(...nodes); this.remove(); }
    replaceChildren(...nodes) {
        this.childNodes.slice().forEach(c => this._drop(c));
        this.append(...nodes);
    }
    get textContent() { return this.childNodes.map(c => (c.nodeType === 8 ? '' : c.textContent)).join(''); }
    set textContent(s) { this.replaceChildren(...(s === null || s === undefined || s === '' ? [] : [String(s)])); }
    normalize() {}
    cloneNode(deep) {
        const c = this._copy();
        if (deep) this.childNodes.forEach(n => { const m = n.cloneNode(true); m.parentNode = c; c.childNodes.push(m); });
        return c;
    }
    dispatchEvent(ev) {
        ev.target = this;
        let n = this;
        while (n) {
            n._fire(ev);
            if (ev._stop || !ev.bubbles) break;
            n = n.parentNode || (n === this.ownerDocument || n.nodeType === 9 ? n.defaultView : null);
        }
        return !ev.defaultPrevented;
    }
    _walk(out = []) { for (const c of this.childNodes) if (c.nodeType === 1) { out.push(c); c._walk(out); } return out; }
    _all() { return this._walk(); }
    querySelectorAll(s) { const m = selector(s, this); return [...this._all()].filter(m); }
    querySelector(s) { const m = selector(s, this); for (const e of this._all()) if (m(e)) return e; return null; }
    getElementsByTagName(t) { return [...this._all()].filter(e => t === '*' || e.localName === t.toLowerCase()); }
    getElementsByClassName(c) { return [...this._all()].filter(e => c.split(/\s+/).every(x => e.classList.contains(x))); }
}

class Text extends Node {
    constructor(doc, data) { super(doc); this.data = data; this.nodeType = 3; this.nodeName = '#text'; }
    get textContent() { return this.data; }
    set textContent(s) { this.data = String(s); }
    get nodeValue() { return this.data; }
    set nodeValue(s) { this.data = String(s); }
    get wholeText() { return this.data; }
    get length() { return this.data.length; }
    appendData(s) { this.data += s; }
    _copy() { return new Text(this.ownerDocument, this.data); }
}
class Comment extends Text { constructor(doc, data) { super(doc, data); this.nodeType = 8; this.nodeName = '#comment'; } _copy() { return new Comment(this.ownerDocument, this.data); } }
class Fragment extends Node { constructor(doc) { super(doc); this.nodeType = 11; this.nodeName = '#document-fragment'; } _copy() { return new Fragment(this.ownerDocument); } }

function selector(s, scope) {
    const alternatives = s.split(',').map(alt => {
        const parts = alt.trim().replace(/\s*([>+~])\s*/g, ' $1 ').split(/\s+/);
        const tokens = [];
        for (const p of parts) tokens.push('>+~'.includes(p) ? p : compound(p, scope));
        return tokens;
    });
    const match = (e, tokens, i) => {
        if (!tokens[i](e)) return false;
        if (i === 0) return true;
        const c = tokens[i - 1];
        if (c === '>') return e.parentElement !== null && match(e.parentElement, tokens, i - 2);
        if (c === '+') { const p = e.previousElementSibling; return p !== null && match(p, tokens, i - 2); }
        if (c === '~') { for (let p = e.previousElementSibling; p; p = p.previousElementSibling) if (match(p, tokens, i - 2)) return true; return false; }
        for (let p = e.parentElement; p; p = p.parentElement) if (match(p, tokens, i - 1)) return true;
        return false;
    };
    return e => alternatives.some(t => match(e, t, t.length - 1));
}
function compound(p, scope) {
    const tests = [];
    const re = /^(?:(\*)|([a-z][a-z0-9-]*)|#([\w-]+)|\.([\w-]+)|\[([\w-]+)(?:([~^$*|]?=)"?'?([^"'\]]*)"?'?)?\]|:(not)\(([^)]*)\)|:([a-z-]+)(?:\(([^)]*)\))?)/i;
    while (p) {
        const m = re.exec(p);
        if (!m) throw new Error('SyntaxError: selector ' + p);
        p = p.slice(m[0].length);
        if (m[2]) { const t = m[2].toLowerCase(); tests.push(e => e.localName === t); }
        else if (m[3]) tests.push(e => e.id === m[3]);
        else if (m[4]) tests.push(e => e.classList.contains(m[4]));
        else if (m[5]) tests.push(e => {
            const v = e.getAttribute(m[5]);
            if (v === null) return false;
            switch (m[6]) {
                case undefined: return true;
                case '=': return v === m[7];
                case '^=': return v.startsWith(m[7]);
                case '$=': return v.endsWith(m[7]);
                case '*=': return v.includes(m[7]);
                default: return v.split(/\s+/).includes(m[7]);
            }
        });
        else if (m[8]) { const f = compound(m[9], scope); tests.push(e => !f(e)); }
        else if (m[10]) {
            const n = m[10];
            if (n === 'checked') tests.push(e => e.checked || e.selected);
            else if (n === 'scope') tests.push(e => e === scope);
            else if (n === 'first-child') tests.push(e => !e.previousElementSibling);
            else if (n === 'last-child') tests.push(e => !e.nextElementSibling);
            else if (n === 'disabled') tests.push(e => !!e.disabled);
            else if (n === 'empty') tests.push(e => !e.childNodes.length);
            else throw new Error('SyntaxError: selector :' + n);
        }
    }
    return e => tests.every(t => t(e));
}

// properties which reflect an attribute
const REFLECT = ['id', 'title', 'href', 'target', 'rel', 'name', 'type', 'src', 'alt', 'placeholder', 'lang', 'dir', 'role', 'download', 'htmlFor', 'autocomplete'];
const FLAGS = ['disabled', 'hidden', 'open', 'readOnly', 'multiple', 'required', 'autofocus'];

class Element extends Node {
    constructor(doc, name) {
        super(doc);
        this.nodeType = 1;
        this.localName = name.toLowerCase();
        this.tagName = this.nodeName = name.toUpperCase();
        this._attrs = new Map();
        this.scrollTop = this.scrollLeft = 0;
        this.offsetHeight = this.offsetWidth = this.clientHeight = this.clientWidth = this.scrollHeight = 0;
    }
    _copy() {
        const c = new Element(this.ownerDocument, this.localName);
        this._attrs.forEach((v, k) => c._attrs.set(k, v));
        for (const k of ['_value', '_checked', '_selected']) if (this[k] !== undefined) c[k] = this[k];
        return c;
    }
    getAttribute(k) { k = k.toLowerCase(); return this._attrs.has(k) ? this._attrs.get(k) : null; }
    setAttribute(k, v) { this._attrs.set(k.toLowerCase(), String(v)); }
    hasAttribute(k) { return this._attrs.has(k.toLowerCase()); }
    removeAttribute(k) { this._attrs.delete(k.toLowerCase()); }
    toggleAttribute(k, on) { if (on === undefined) on = !this.hasAttribute(k); if (on) this.setAttribute(k, ''); else this.removeAttribute(k); return on; }
    getAttributeNames() { return [...this._attrs.keys()]; }
    get attributes() { return [...this._attrs].map(([name, value]) => ({ name, value })); }
    get className() { return this.getAttribute('class') || ''; }
    set className(v) { this.setAttribute('class', v); }
    get classList() {
        const e = this, get = () => e.className.split(/\s+/).filter(Boolean), set = l => (e.className = l.join(' '));
        return {
            contains: c => get().includes(c),
            add: (...cs) => set([...new Set([...get(), ...cs])]),
            remove: (...cs) => set(get().filter(c => !cs.includes(c))),
            toggle: (c, on) => { const has = get().includes(c); const want = on === undefined ? !has : !!on; if (want !== has) set(want ? [...get(), c] : get().filter(x => x !== c)); return want; },
            replace: (a, b) => set(get().map(c => (c === a ? b : c))),
            get length() { return get().length; },
            item: i => get()[i] || null,
            forEach: f => get().forEach(f),
            toString: () => e.className,
        };
    }
    set classList(v) { this.className = v; }
    get style() {
        if (!this._style) this._style = new Proxy({ cssText: this.getAttribute('style') || '' }, {
            get: (t, k) => k === 'setProperty' ? (n, v) => { t[n] = v; } : k === 'removeProperty' ? n => { delete t[n]; } : k === 'getPropertyValue' ? n => t[n] || '' : k in t ? t[k] : '',
        });
        return this._style;
    }
    set style(v) { this.style.cssText = v; }
    get dataset() {
        const e = this, attr = k => 'data-' + String(k).replace(/[A-Z]/g, c => '-' + c.toLowerCase());
        return new Proxy({}, { get: (t, k) => { const v = e.getAttribute(attr(k)); return v === null ? undefined : v; }, set: (t, k, v) => { e.setAttribute(attr(k), v); return true; }, has: (t, k) => e.hasAttribute(attr(k)), deleteProperty: (t, k) => { e.removeAttribute(attr(k)); return true; } });
    }
    get innerText() { return this.textContent; }
    set innerText(s) { this.textContent = s; }
    get outerText() { return this.textContent; }
    get text() { return this.textContent; }
    set text(s) { this.textContent = s; }
    get innerHTML() { return this.childNodes.map(serialize).join(''); }
    set innerHTML(s) {
        const f = parse(this.ownerDocument, String(s === null ? '' : s));
        this.replaceChildren(...f);
    }
    get outerHTML() { return serialize(this); }
    insertAdjacentHTML(where, s) { this._adjacent(where, parse(this.ownerDocument, String(s))); }
    insertAdjacentElement(where, e) { this._adjacent(where, [e]); return e; }
    insertAdjacentText(where, s) { this._adjacent(where, [new Text(this.ownerDocument, String(s))]); }
    _adjacent(where, nodes) {
        switch (where.toLowerCase()) {
            case 'beforebegin': this.before(...nodes); break;
            case 'afterbegin': this.prepend(...nodes); break;
            case 'beforeend': this.append(...nodes); break;
            case 'afterend': this.after(...nodes); break;
        }
    }
    matches(s) { return selector(s, this)(this); }
    closest(s) { const m = selector(s, this); for (let e = this; e; e = e.parentElement) if (m(e)) return e; return null; }
    focus() { this.ownerDocument.activeElement = this; }
    blur() {}
    select() {}
    setSelectionRange() {}
    scrollIntoView() {}
    scrollTo() {}
    scroll() {}
    getBoundingClientRect() { return { top: 0, left: 0, right: 0, bottom: 0, width: 0, height: 0, x: 0, y: 0 }; }
    animate() { return { finished: Promise.resolve(), cancel() {} }; }
    get content() { return this.localName === 'template' ? this._content || (this._content = (() => { const f = new Fragment(this.ownerDocument); f.append(...this.childNodes.slice()); return f; })()) : this.getAttribute('content') || undefined; }
    click() {
        if (this.disabled) return;
        const box = this.localName === 'input' && (this.type === 'checkbox' || this.type === 'radio');
        const before = this.checked;
        if (box) this.checked = !before;
        const ok = this.dispatchEvent(new Event('click', { bubbles: true, cancelable: true, button: 0, detail: 1 }));
        if (box && !ok) this.checked = before;
        if (box && ok) {
            this.dispatchEvent(new Event('input', { bubbles: true }));
            this.dispatchEvent(new Event('change', { bubbles: true }));
        }
        return ok;
    }
    // controls
    get options() { return [...this._all()].filter(e => e.localName === 'option'); }
    get length() { return this.localName === 'select' ? this.options.length : undefined; }
    add(option, before) { this.insertBefore(option, before instanceof Node ? before : typeof before === 'number' ? this.options[before] || null : null); }
    _selectedOption() { const o = this.options; return o.filter(x => x._selected).pop() || o.filter(x => x._selected === undefined && x.hasAttribute('selected')).pop() || o[0] || null; }
    get selectedIndex() { return this.options.indexOf(this._selectedOption()); }
    set selectedIndex(i) { this.options.forEach((o, j) => (o._selected = i === j)); }
    get selectedOptions() { const o = this._selectedOption(); return o ? [o] : []; }
    get index() { return this.closest('select') ? this.closest('select').options.indexOf(this) : 0; }
    get selected() { const s = this.closest('select'); return this.localName === 'option' ? (s ? s._selectedOption() === this : !!this._selected) : undefined; }
    set selected(v) {
        const s = this.closest('select');
        if (v && s) s.options.forEach(o => (o._selected = false));
        this._selected = !!v;
    }
    get defaultSelected() { return this.hasAttribute('selected'); }
    get value() {
        switch (this.localName) {
            case 'select': { const o = this._selectedOption(); return o ? o.value : ''; }
            case 'option': return this.hasAttribute('value') ? this.getAttribute('value') : this.textContent.trim().replace(/\s+/g, ' ');
            case 'textarea': return this._value !== undefined ? this._value : this.textContent;
            case 'input': return this._value !== undefined ? this._value : this.getAttribute('value') || (this.type === 'checkbox' ? 'on' : '');
            case 'button': return this.getAttribute('value') || '';
        }
        return this._value;
    }
    set value(v) {
        v = v === null ? '' : String(v);
        if (this.localName === 'select') this.options.forEach(o => (o._selected = o.value === v));
        else if (this.localName === 'option' || this.localName === 'button') this.setAttribute('value', v);
        else if (this.localName === 'textarea') this._value = v.replace(/\r\n?/g, '\n');
        else if (this.localName === 'input') this._value = v.replace(/[\r\n]/g, '');
        else this._value = v;
    }
    get defaultValue() { return this.localName === 'textarea' ? this.textContent : this.getAttribute('value') || ''; }
    get valueAsNumber() { return Number(this.value); }
    get checked() { return this.localName === 'input' ? (this._checked !== undefined ? this._checked : this.hasAttribute('checked')) : undefined; }
    set checked(v) { this._checked = !!v; }
    get labels() { return []; }
    get form() { return this.closest('form'); }
}
for (const k of REFLECT) {
    const attr = k === 'htmlFor' ? 'for' : k;
    Object.defineProperty(Element.prototype, k, {
        get() { return this.getAttribute(attr) || (k === 'type' && this.localName === 'input' ? 'text' : ''); },
        set(v) { this.setAttribute(attr, v); },
    });
}
for (const k of FLAGS) Object.defineProperty(Element.prototype, k, { get() { return this.hasAttribute(k); }, set(v) { this.toggleAttribute(k, !!v); } });

function serialize(n) {
    if (n.nodeType === 3) return escapeText(n.data);
    if (n.nodeType === 8) return '<!--' + n.data + '-->';
    const attrs = [...n._attrs].map(([k, v]) => ` ${k}="${v.replace(/&/g, '&amp;').replace(/"/g, '&quot;')}"`).join('');
    return `<${n.localName}${attrs}>` + (VOID.has(n.localName) ? '' : n.childNodes.map(serialize).join('') + `</${n.localName}>`);
}

/** The nodes of a piece of HTML. */
function parse(doc, html) {
    const root = new Fragment(doc);
    const stack = [root];
    const top = () => stack[stack.length - 1];
    const add = n => { n.parentNode = top(); top().childNodes.push(n); };
    let i = 0;
    while (i < html.length) {
        if (html.startsWith('<!--', i)) {
            const e = html.indexOf('-->', i + 4);
            add(new Comment(doc, html.slice(i + 4, e < 0 ? html.length : e)));
            i = e < 0 ? html.length : e + 3;
        } else if (html.startsWith('<!', i) || html.startsWith('<?', i)) {
            const e = html.indexOf('>', i);
            i = e < 0 ? html.length : e + 1;
        } else if (/^<\/[a-z]/i.test(html.slice(i, i + 3))) {
            const e = html.indexOf('>', i), name = html.slice(i + 2, e).trim().toLowerCase();
            const k = stack.map(s => s.localName).lastIndexOf(name);
            if (k > 0) stack.length = k;
            i = e < 0 ? html.length : e + 1;
        } else if (/^<[a-z]/i.test(html.slice(i, i + 2))) {
            const m = /^<([a-z][a-z0-9-]*)/i.exec(html.slice(i, i + 40));
            const el = new Element(doc, m[1]);
            i += m[0].length;
            const re = /\s*(?:(\/?>)|([^\s=>\/]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>]*)))?|\/)/y;
            let closed = false;
            for (;;) {
                re.lastIndex = i;
                const a = re.exec(html);
                if (!a) { i = html.length; break; }
                i = re.lastIndex;
                if (a[1]) { closed = a[1] === '/>'; break; }
                if (a[2]) { const v = a[3] !== undefined ? a[3] : a[4] !== undefined ? a[4] : a[5] || ''; if (!el._attrs.has(a[2].toLowerCase())) el.setAttribute(a[2], unescape(v)); }
            }
            const name = el.localName;
            if (['li', 'option', 'p', 'tr', 'td', 'th', 'dt', 'dd'].includes(name) && top().localName === name) stack.pop();
            add(el);
            if (VOID.has(name)) continue;
            if (RAW.has(name)) {
                const low = html.toLowerCase();
                let e = low.indexOf('</' + name, i);
                if (e < 0) e = html.length;
                let s = html.slice(i, e);
                if (name === 'textarea') s = s.replace(/^\n/, '');
                if (s) { const t = new Text(doc, name === 'script' || name === 'style' ? s : unescape(s)); t.parentNode = el; el.childNodes.push(t); }
                i = html.indexOf('>', e);
                i = i < 0 ? html.length : i + 1;
                continue;
            }
            stack.push(el);
        } else {
            let e = html.indexOf('<', i + 1);
            if (e < 0) e = html.length;
            add(new Text(doc, unescape(html.slice(i, e))));
            i = e;
        }
    }
    const nodes = root.childNodes;
    nodes.forEach(n => (n.parentNode = null));
    root.childNodes = [];
    return nodes;
}

class Document extends Node {
    constructor() {
        super(null);
        this.nodeType = 9;
        this.nodeName = '#document';
        this._pageErrors = [];
        this.readyState = 'loading';
        this.visibilityState = 'visible';
        this.hidden = false;
        this.activeElement = null;
        this._ids = new Map();
        this.cookie = '';
        this.title = '';
        this.currentScript = null;
    }
    _report(e) { this._pageErrors.push(e && e.stack ? String(e.stack).split('\n').slice(0, 2).join(' ') : String(e)); }
    _compile(code) { return this.defaultView._compile(code); }
    get documentElement() { return this.querySelector('html'); }
    get body() { return this.querySelector('body'); }
    get head() { return this.querySelector('head'); }
    get scripts() { return this.getElementsByTagName('script'); }
    get location() { return this.defaultView.location; }
    getElementById(id) {
        let e = this._ids.get(id);
        if (e && e._attrs.get('id') === id && this.contains(e)) return e;
        for (e of this._walk()) if (e._attrs.get('id') === id) { this._ids.set(id, e); return e; }
        return null;
    }
    querySelector(s) { const m = /^\s*#([\w-]+)\s*$/.exec(s); return m ? this.getElementById(m[1]) : super.querySelector(s); }
    createElement(n) { return new Element(this, n); }
    createElementNS(ns, n) { return new Element(this, n); }
    createTextNode(s) { return new Text(this, String(s)); }
    createComment(s) { return new Comment(this, String(s)); }
    createDocumentFragment() { return new Fragment(this); }
    createEvent() { const e = new Event(''); e.initEvent = (t, b, c) => { e.type = t; e.bubbles = b; e.cancelable = c; }; return e; }
    importNode(n, deep) { return n.cloneNode(deep); }
    adoptNode(n) { n.remove(); return n; }
    execCommand() { return true; }
    hasFocus() { return true; }
}

module.exports = { EventTarget, Event, Node, Text, Element, Fragment, Document, parse };
