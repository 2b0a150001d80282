const fs = require('fs'), assert = require('assert');
const { Page, load } = require('./page.js');
load(fs.readFileSync(process.argv[2], 'utf8'), { '/wordlists.js': 'window.WORDLISTS=[{name:"default",len:3},{name:"other",len:2}];\n' });
const status = s => JSON.stringify({ status: s });
const match = (...ws) => JSON.stringify({ match: { phrase: ws.map(([text, score]) => ({ text, score })) } });
const send = (s, m) => s.dispatchEvent(new (p.window.Event)('message', { data: m }));
const connect = s => { s.readyState = 1; s.dispatchEvent(new (p.window.Event)('open')); };
const shown = () => p.el('output').children.map(b => b.querySelector('.result').textContent);
let p = new Page('');
const s = () => p.sockets[p.sockets.length - 1];
p.type('input', 'x');
p.el('query').click();
connect(s());
for (const t of ['ab', 'cab', 'b', 'ba', 'xb']) send(s(), match([t, 5]));
p.type('filter', 'b$');
assert.deepStrictEqual(shown(), ['ab', 'cab', 'b', 'xb']);
