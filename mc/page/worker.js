'use strict';
// Explores every sequence of what the user and the network can do to the page.
// Speaks JSON lines: one command in, one answer out.

const D = require('./dom.js');
const { Page, load } = require('./page.js');

/** The addresses which were opened already, and what was in them. */
const addresses = new Set();

class Wrong extends Error {}
const wrong = s => { throw new Wrong(s); };

/** What must be seen, and the page that shows it. `known`: what the server sends for a request. */
class Run {
    constructor(root, known) {
        this.root = root;
        this.known = known;
        this.page = new Page(root.hash);
        this.current = null; // the connection of the latest query
        this.delivered = 0; // messages of it delivered
        this.received = []; // answers of it received
        this.stopped = false;
        this.vague = false; // the filter is no regular expression
        this.loose = false; // answers came while sorting was on: the order is open until the next change
        this.status = null;
    }
    /** The actions possible now. */
    enabled() {
        const a = [];
        const c = this.current;
        const live = c && !this.stopped && c.readyState === 1;
        for (const x of this.root.alphabet) {
            const ok =
                x === 'open' || x === 'refuse' ? c && !this.stopped && c.readyState === 0
                : x === 'match' ? live && c.sent.length && this.rest().some(f => f.includes('"match"'))
                : x === 'end' || x === 'drop' ? live && c.sent.length
                : x === 'late' ? this.page.sockets.some(s => s.queue.length)
                : true;
            if (ok) a.push(x);
        }
        return a;
    }
    reply() {
        const c = this.current;
        const key = JSON.stringify([c.sent[0], c.controls, c.example]);
        if (!this.known[key]) throw { need: { key, sent: c.sent[0], controls: c.controls, example: c.example } };
        return this.known[key];
    }
    rest() { return this.reply().frames.slice(this.delivered); }
    message(f) {
        const sorting = this.sorting();
        this.current.dispatchEvent(new D.Event('message', { data: f, origin: 'ws://noodle.example', lastEventId: '' }));
        this.delivered++;
        const m = JSON.parse(f);
        if ('match' in m) this.received.push(this.received.length);
        if ('status' in m) this.status = m.status;
        if ('match' in m && sorting) this.loose = true;
    }
    sorting() { const e = this.page.el('sort'); return !!(e && e.checked); }
    async act(a) {
        const p = this.page;
        const before = p.sockets.length;
        const c = this.current;
        let asks = false;
        let example;
        if (a === 'query') { asks = true; p.el('query').click(); }
        else if (a === 'ctrl-enter') { asks = true; p.el('input').focus(); p.key('input', true); }
        else if (a === 'enter') p.key('input', false);
        else if (a === 'stop') {
            p.el('stop').click();
            if (c) { this.stopped = true; this.status = null; }
        } else if (a.startsWith('example ')) {
            asks = true;
            const e = p.doc.querySelectorAll('a.example')[+a.slice(8)] || p.doc.querySelectorAll('.examples a')[+a.slice(8)];
            example = e.textContent;
            e.click();
        } else if (a === 'open') {
            c.readyState = 1;
            c.dispatchEvent(new D.Event('open'));
        } else if (a === 'refuse') {
            c.readyState = 3;
            c.dispatchEvent(new D.Event('error'));
            c.dispatchEvent(new D.Event('close', { wasClean: false, code: 1006, reason: '' }));
            this.status = null;
        } else if (a === 'drop') {
            c.readyState = 3;
            c.dispatchEvent(new D.Event('close', { wasClean: false, code: 1006, reason: '' }));
            this.status = null;
        } else if (a === 'match') {
            for (const f of this.rest()) { this.message(f); if (f.includes('"match"')) break; }
        } else if (a === 'end') {
            for (const f of this.rest()) this.message(f);
            c.readyState = 3;
            c.dispatchEvent(new D.Event('close', { wasClean: true, code: 1000, reason: '' }));
        } else if (a === 'late') {
            const seen = p.el('status').textContent;
            p.sockets.forEach(s => s._deliver());
            await p.settle();
            if (p.el('status').textContent !== seen) wrong(`an abandoned connection changed the status from ${JSON.stringify(seen)} to ${JSON.stringify(p.el('status').textContent)}`);
        } else if (a === 'sort') { this.loose = false; p.el('sort').click(); }
        else if (a === 'filter') { this.loose = false; p.el('enable-filter').click(); }
        else if (a.startsWith('filter ')) { this.loose = false; p.type('filter', a.slice(7)); }
        else if (a.startsWith('input ')) p.type('input', a.slice(6));
        else if (a.startsWith('custom ')) p.type('custom-wordlist', a.slice(7));
        else if (a.startsWith('words ')) p.type('max-phrase-length', a.slice(6));
        else if (a.startsWith('limit ')) p.type('max-results', a.slice(6));
        else if (a.startsWith('list ')) p.type('wordlist', a.slice(5));
        else if (a === 'copy') {
            p.el('copy-wordlist').click();
            await p.settle();
            const got = p.el('custom-wordlist').value.split('\n').filter(s => s !== '');
            const want = this.shown();
            if (!this.vague && JSON.stringify(got) !== JSON.stringify(want)) wrong(`copied ${JSON.stringify(got)}, shown are ${JSON.stringify(want)}`);
        } else throw new Error('unknown action ' + a);
        await p.settle();
        if (asks) {
            if (p.sockets.length !== before + 1) wrong(`${p.sockets.length - before} connections for one query`);
            this.current = p.sockets[before];
            this.current.example = example;
            this.delivered = 0;
            this.received = [];
            this.stopped = false;
            this.loose = false;
            this.status = null;
            const u = new URL(this.current.url);
            if (u.protocol !== 'ws:' || u.host !== 'noodle.example' || u.pathname !== '/ws') wrong(`connects to ${this.current.url}`);
        } else if (p.sockets.length !== before) wrong(`a connection nobody asked for`);
        this.check();
    }
    /** The answers as they are on the page, in order. */
    shown() {
        const out = this.page.el('output');
        const texts = this.current && this.received.length ? this.reply().answers.map(x => x.text) : [];
        const blocks = out.children;
        return blocks.map(b => {
            // the answer of this block: the longest one some element of it consists of
            const all = [b, ...b._all()].map(e => e.textContent.trim());
            const t = texts.filter(t => all.includes(t)).sort((x, y) => y.length - x.length)[0];
            if (t === undefined) wrong(`something that is no answer is shown: ${JSON.stringify(b.textContent)}`);
            return t;
        });
    }
    check() {
        const p = this.page;
        const c = this.current;
        // connections
        p.sockets.forEach(s => {
            if (s !== c && s.readyState < 2) wrong('the connection of an earlier query is still there');
            const most = s.readyState === 0 || s.opened === false ? 0 : 1;
            if (s.sent.length > most) wrong(`${s.sent.length} messages sent: ${JSON.stringify(s.sent)}`);
        });
        if (c && this.stopped && c.readyState < 2) wrong('stopped, but the connection is still there');
        if (c && !this.stopped && c.readyState === 1 && c.sent.length !== 1) wrong('connected, but nothing is asked');
        if (c && c.sent.length && typeof c.sent[0] !== 'string') wrong('the request is no text');
        // answers
        const shown = this.shown();
        if (!c) this.vague = false;
        if (this.status !== null && !p.el('status').textContent.includes(this.status)) wrong(`the status shown is ${JSON.stringify(p.el('status').textContent)}, not ${JSON.stringify(this.status)}`);
        if (!c && shown.length) wrong('answers without a query');
        if (!c) return;
        const answers = this.received.length ? this.reply().answers : [];
        const on = p.el('enable-filter').checked;
        let re = null;
        if (on) {
            // (what is shown while the filter is no regular expression is open)
            try { re = new RegExp(p.el('filter').value); } catch (e) { this.vague = true; return; }
        }
        this.vague = false;
        const want = this.received.map(i => answers[i]).filter(x => !re || re.test(x.text));
        const sorted = l => JSON.stringify(l.slice().sort());
        if (sorted(shown) !== sorted(want.map(x => x.text))) wrong(`shown are ${JSON.stringify(shown)}, expected ${JSON.stringify(want.map(x => x.text))}`);
        if (this.sorting() && !this.loose) {
            const score = new Map(want.map(x => [x.text, x.score]));
            shown.forEach((t, i) => { if (i && score.get(shown[i - 1]) > score.get(t)) wrong(`not sorted by score: ${JSON.stringify(shown)}`); });
        } else if (!this.sorting() && !this.loose) {
            if (JSON.stringify(shown) !== JSON.stringify(want.map(x => x.text))) wrong(`the order shown is ${JSON.stringify(shown)}, expected ${JSON.stringify(want.map(x => x.text))}`);
        }
    }
    /** At the end of a sequence: the links beside each answer, and the address of the page. */
    async finish() {
        const p = this.page;
        const shown = this.shown();
        const blocks = p.el('output').children.slice();
        for (let i = 0; i < blocks.length; i++) {
            const text = shown[i];
            let copied = 0;
            for (const a of blocks[i].querySelectorAll('a')) {
                const href = a.getAttribute('href');
                if (href === null || href === '#' || href === '') {
                    p.clipboard = [];
                    a.click();
                    await p.settle();
                    p.clipboard.forEach(t => { copied++; if (t !== text) wrong(`copied ${JSON.stringify(t)} beside ${JSON.stringify(text)}`); });
                } else {
                    const u = new URL(href, p.url);
                    const parts = [...u.searchParams.values(), decodeURIComponent(u.pathname.split('/').pop())];
                    if (u.origin === p.url.origin) wrong(`a link to ${href} beside ${JSON.stringify(text)}`);
                    if (!parts.some(v => v === text || v.endsWith(':' + text))) wrong(`the link ${href} is not about ${JSON.stringify(text)}`);
                }
            }
            if (!copied) wrong(`nothing to copy ${JSON.stringify(text)} with`);
        }
        if (this.current) {
            const input = this.current.controls.input;
            if (addresses.has(p.url.hash + '\n' + input)) return;
            addresses.add(p.url.hash + '\n' + input);
            const other = new Page(p.url.hash);
            await other.settle();
            if (other.el('input').value !== input) wrong(`the address of the query ${JSON.stringify(input)} opens the page with ${JSON.stringify(other.el('input').value)}`);
        }
    }
}

async function explore(cmd) {
    const known = cmd.known || {};
    const stats = { states: 0, transitions: 0, traces: 0, outcomes: [] };
    const seen = new Set();
    const bad = (path, e) => ({ error: `after ${JSON.stringify(path)}: ${e.message}` });
    // every sequence of `depth` enabled actions after the setup, each from a fresh page
    const replay = async path => {
        const r = new Run(cmd, known);
        await r.page.settle();
        for (const a of cmd.setup) await r.act(a);
        for (const a of path) {
            const e = r.enabled();
            if (!e.includes(a)) throw { skip: true };
            await r.act(a);
            stats.transitions++;
        }
        return r;
    };
    const stack = [];
    const first = cmd.first || [];
    let path = first.slice();
    let result = null;
    const walk = async () => {
        // depth first: extend the path with the first enabled action; backtrack to the next one
        for (;;) {
            let r;
            try {
                r = await replay(path);
                while (path.length < cmd.depth) {
                    const e = r.enabled();
                    if (!e.length) break;
                    stack.push({ at: path.length, todo: e.slice(1) });
                    path.push(e[0]);
                    stats.states++;
                    await r.act(e[0]);
                    stats.transitions++;
                }
                await r.finish();
            } catch (e) {
                if (e instanceof Wrong) {
                    const errors = r ? r.page.doc._pageErrors : [];
                    return { error: `after ${JSON.stringify([...cmd.setup, ...path])}: ${e.message}${errors.length ? ' (' + errors[0] + ')' : ''}` };
                }
                if (e && e.need) return { need: e.need };
                // (this beginning is not possible)
                if (e && e.skip && path.length === first.length) return { ok: true, skipped: true };
                if (e && e.skip) return { error: `after ${JSON.stringify([...cmd.setup, ...path])}: the same actions do not lead to the same state again` };
                throw e;
            }
            stats.traces++;
            const o = r.page.el('output').textContent + '|' + r.page.el('status').textContent.replace(/[0-9.]+.?s\b/g, '');
            if (!seen.has(o)) { seen.add(o); if (stats.outcomes.length < 5000) stats.outcomes.push(o); }
            for (;;) {
                if (!stack.length) return { ok: true };
                const t = stack[stack.length - 1];
                if (t.todo.length) {
                    path = path.slice(0, t.at);
                    path.push(t.todo.shift());
                    stats.states++;
                    break;
                }
                stack.pop();
            }
        }
    };
    result = await walk();
    return Object.assign(result, stats);
}

async function command(c) {
    if (c.cmd === 'load') {
        load(c.html, c.files);
        const p = new Page('');
        await p.settle();
        return { controls: p.controls(), errors: p.doc._pageErrors, lists: p.el('wordlist').options.map(o => o.value), examples: p.doc.querySelectorAll('a.example').map(a => a.textContent), ids: ['input', 'query', 'stop', 'output', 'status', 'sort', 'enable-filter', 'filter', 'custom-wordlist', 'copy-wordlist', 'max-phrase-length', 'max-results', 'wordlist'].filter(i => !p.el(i)), scripts: p.doc.scripts.map(s => s.getAttribute('src')).filter(s => s) };
    }
    if (c.cmd === 'scripts') return { scripts: [...function* f(n) { for (const m of n) { if (m.localName === 'script' && m.getAttribute('src')) yield m.getAttribute('src'); yield* f(m.childNodes); } }(D.parse(null, c.html))] };
    if (c.cmd === 'open') {
        const p = new Page(c.hash);
        await p.settle();
        return { input: p.el('input').value, sockets: p.sockets.length, errors: p.doc._pageErrors };
    }
    if (c.cmd === 'explore') return explore(c);
    throw new Error('unknown command');
}

(async () => {
    let buffer = '';
    for await (const chunk of process.stdin) {
        buffer += chunk;
        let i;
        while ((i = buffer.indexOf('\n')) >= 0) {
            const line = buffer.slice(0, i);
            buffer = buffer.slice(i + 1);
            let answer;
            try { answer = await command(JSON.parse(line)); } catch (e) { answer = { failed: String((e && e.stack) || e) }; }
            process.stdout.write(JSON.stringify(answer) + '\n');
        }
    }
})();
