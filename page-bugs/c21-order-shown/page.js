'use strict';
// The page, run by its own scripts on a document kept here, with a network that does what it is told.

const vm = require('vm');
const D = require('./dom.js');

let source = null; // { html, files: {path: script} }
const compiled = new Map();
function script(code) {
    if (!compiled.has(code)) compiled.set(code, new vm.Script(code, { filename: 'page' }));
    return compiled.get(code);
}

class Page {
    constructor(hash) {
        const doc = (this.doc = new D.Document());
        const page = this;
        this.sockets = [];
        this.clipboard = [];
        this.timers = [];
        this.now = 0;
        this.url = new URL('http://noodle.example/' + (hash || ''));
        const win = vm.createContext({});
        const g = vm.runInContext('globalThis', win);
        this.window = g;
        doc.defaultView = g;
        const target = new D.EventTarget();
        target._report = e => doc._report(e);
        target.ownerDocument = doc;
        g._fire = ev => {
            for (const k of ['on' + ev.type]) if (typeof g[k] === 'function') target[k] = g[k];
            target._fire(ev);
        };
        this.fireWindow = type => g._fire(new D.Event(type));
        g._compile = code => vm.runInContext('(function(event){' + code + '\n})', win);
        const timer = (f, ms, args, every) => {
            const id = (page.lastTimer = (page.lastTimer || 0) + 1);
            page.timers.push({ id, at: page.now + (ms || 0), f: typeof f === 'function' ? () => f(...args) : () => vm.runInContext(String(f), win), every: every ? Math.max(1, ms || 0) : 0 });
            return id;
        };
        const clear = id => { page.timers = page.timers.filter(t => t.id !== id); };
        const storage = () => { const m = new Map(); return { getItem: k => (m.has(k) ? m.get(k) : null), setItem: (k, v) => m.set(String(k), String(v)), removeItem: k => m.delete(k), clear: () => m.clear() }; };
        const location = {
            get href() { return page.url.href; }, set href(v) { page.url = new URL(v, page.url); },
            get hash() { return page.url.hash; }, set hash(v) { page.url.hash = v; },
            get host() { return page.url.host; }, get hostname() { return page.url.hostname; }, get port() { return page.url.port; },
            get protocol() { return page.url.protocol; }, get origin() { return page.url.origin; }, get pathname() { return page.url.pathname; },
            get search() { return page.url.search; },
            reload() {}, assign(v) { page.url = new URL(v, page.url); }, replace(v) { page.url = new URL(v, page.url); }, toString: () => page.url.href,
        };
        class WebSocket extends D.EventTarget {
            constructor(url, protocols) {
                super();
                this._errors = doc._pageErrors;
                this.url = new URL(url, page.url.href.replace(/^http/, 'ws')).href;
                this.readyState = 0;
                this.protocol = '';
                this.extensions = '';
                this.bufferedAmount = 0;
                this.binaryType = 'blob';
                this.sent = [];
                this.queue = []; // events of a connection the page has given up
                this.controls = page.controls();
                page.sockets.push(this);
            }
            send(data) {
                if (this.readyState === 0) throw new Error('InvalidStateError');
                if (this.readyState === 1) this.sent.push(data);
            }
            close() {
                if (this.readyState >= 2) return;
                if (this.readyState === 0) this.queue.push(['error']);
                this.queue.push(['close', { wasClean: this.readyState === 1, code: this.readyState === 1 ? 1005 : 1006, reason: '' }]);
                this.readyState = 2;
            }
            _deliver() {
                for (const [type, init] of this.queue.splice(0)) {
                    this.readyState = 3;
                    this.dispatchEvent(new D.Event(type, init));
                }
            }
        }
        ['CONNECTING', 'OPEN', 'CLOSING', 'CLOSED'].forEach((k, i) => { WebSocket[k] = i; WebSocket.prototype[k] = i; });
        const idle = f => timer(() => f({ didTimeout: false, timeRemaining: () => 50 }), 0, [], false);
        const observer = class { observe() {} disconnect() {} unobserve() {} takeRecords() { return []; } };
        const nothing = class { constructor() { this.headers = {}; } open() {} send() {} setRequestHeader() {} addEventListener() {} abort() {} };
        Object.assign(g, {
            window: g, self: g, top: g, parent: g, document: doc, location, navigator: { userAgent: 'explorer', language: 'en', platform: '', clipboard: { writeText: s => { page.clipboard.push(String(s)); return Promise.resolve(); } } },
            history: { length: 1, state: null, pushState(s, t, u) { if (u !== undefined && u !== null) page.url = new URL(u, page.url); }, replaceState(s, t, u) { if (u !== undefined && u !== null) page.url = new URL(u, page.url); } },
            console: { log() {}, error() {}, warn() {}, info() {}, debug() {}, trace() {}, time() {}, timeEnd() {}, assert() {} },
            setTimeout: (f, ms, ...a) => timer(f, ms, a, false), setInterval: (f, ms, ...a) => timer(f, ms, a, true), clearTimeout: clear, clearInterval: clear,
            requestAnimationFrame: f => timer(f, 16, [page.now + 16], false), cancelAnimationFrame: clear, requestIdleCallback: idle, cancelIdleCallback: clear,
            setImmediate: undefined, queueMicrotask: f => queueMicrotask(f), structuredClone: x => structuredClone(x), performance: { now: () => page.now, mark() {}, measure() {} },
            localStorage: storage(), sessionStorage: storage(), WebSocket, XMLHttpRequest: nothing, FileReader: nothing, fetch: () => new Promise(() => {}),
            alert() {}, confirm: () => true, prompt: () => null, open: () => null, getSelection: () => ({ removeAllRanges() {}, addRange() {} }), scrollTo() {}, matchMedia: () => ({ matches: false, addEventListener() {}, addListener() {} }),
            getComputedStyle: e => e.style, MutationObserver: observer, IntersectionObserver: observer, ResizeObserver: observer,
            URL, URLSearchParams, TextEncoder, TextDecoder, AbortController, Blob, btoa, atob, Intl, crypto: { randomUUID: () => '0' },
            Event: D.Event, CustomEvent: D.Event, KeyboardEvent: D.Event, MouseEvent: D.Event, InputEvent: D.Event, MessageEvent: D.Event, EventTarget: D.EventTarget,
            Node: D.Node, Element: D.Element, HTMLElement: D.Element, Text: D.Text, DocumentFragment: D.Fragment, Option: function (text, value) { const o = doc.createElement('option'); o.textContent = text; if (value !== undefined) o.value = value; return o; },
            innerWidth: 1000, innerHeight: 1000, devicePixelRatio: 1, isSecureContext: true, origin: this.url.origin,
            addEventListener: (t, f, o) => target.addEventListener(t, f, o), removeEventListener: (t, f) => target.removeEventListener(t, f), dispatchEvent: ev => { ev.target = g; g._fire(ev); return !ev.defaultPrevented; },
        });
        for (const t of ['Input', 'TextArea', 'Select', 'Div', 'Span', 'Anchor', 'Button', 'Option', 'Script']) g['HTML' + t + 'Element'] = D.Element;
        const nodes = source.tree.map(n => n.cloneNode(true));
        const own = n => { n.ownerDocument = doc; n.childNodes.forEach(own); };
        nodes.forEach(own);
        nodes.forEach(n => { n.parentNode = doc; doc.childNodes.push(n); });
        const run = s => {
            const type = s.getAttribute('type');
            if (type && !/javascript|module|^$/i.test(type)) return;
            const src = s.getAttribute('src');
            let code = s.textContent;
            if (src !== null) {
                code = source.files[new URL(src, this.url).pathname];
                if (code === undefined) { doc._report('no such script: ' + src); return; }
            }
            doc.currentScript = s;
            try { script(code).runInContext(win); } catch (e) { doc._report(e); }
            doc.currentScript = null;
        };
        // (scripts run when the document above them is there; what is below them is not looked at earlier by this page)
        const scripts = doc.scripts;
        const later = s => s.hasAttribute('src') && s.hasAttribute('defer') || s.getAttribute('type') === 'module';
        scripts.filter(s => !later(s)).forEach(run);
        doc.readyState = 'interactive';
        scripts.filter(later).forEach(run);
        doc.dispatchEvent(new D.Event('DOMContentLoaded', { bubbles: true }));
        doc.readyState = 'complete';
        this.fireWindow('load');
    }
    el(id) { return this.doc.getElementById(id); }
    /** The settings as the page shows them. */
    controls() {
        const v = id => { const e = this.el(id); return e ? e.value : null; };
        return { input: v('input'), words: v('max-phrase-length'), limit: v('max-results'), list: v('wordlist'), custom: v('custom-wordlist') };
    }
    /** Lets everything happen that is due at once. */
    async settle() {
        for (let i = 0; i < 50; i++) {
            await new Promise(r => setImmediate(r));
            const due = this.timers.filter(t => t.at <= this.now + 1000 && !t.ran);
            if (!due.length) break;
            due.sort((a, b) => a.at - b.at || a.id - b.id);
            const t = due[0];
            if (t.every) { if (t.at > this.now + 1000) break; t.at += t.every; if (i > 20) break; } else this.timers.splice(this.timers.indexOf(t), 1);
            try { t.f(); } catch (e) { this.doc._report(e); }
        }
        this.now += 1000;
    }
    type(id, value) {
        const e = this.el(id);
        e.value = value;
        e.dispatchEvent(new D.Event('input', { bubbles: true, inputType: 'insertText' }));
        e.dispatchEvent(new D.Event('change', { bubbles: true }));
    }
    key(id, ctrl) {
        const init = { bubbles: true, cancelable: true, key: 'Enter', code: 'Enter', keyCode: 13, which: 13, ctrlKey: ctrl, metaKey: false, shiftKey: false, altKey: false, repeat: false };
        const e = this.el(id);
        for (const t of ['keydown', 'keypress', 'keyup']) e.dispatchEvent(new D.Event(t, init));
    }
}

module.exports = { Page, load(html, files) { source = { tree: D.parse(null, html), files }; } };
