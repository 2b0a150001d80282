const fs = require('fs'), assert = require('assert');
const { Page, load } = require('./page.js');
load(fs.readFileSync(process.argv[2], 'utf8'), { '/wordlists.js': 'window.WORDLISTS=[{name:"default",len:3},{name:"other",len:2}];\n' });
const status = s => JSON.stringify({ status: s });
const match = (...ws) => JSON.stringify({ match: { phrase: ws.map(([text, score]) => ({ text, score })) } });
const send = (s, m) => s.dispatchEvent(new (p.window.Event)('message', { data: m }));
const connect = s => { s.readyState = 1; s.dispatchEvent(new (p.window.Event)('open')); };
const shown = () => p.el('output').children.map(b => b.querySelector('.result').textContent);
let p = new Page('');
const s = () => p.sockets[p.sockets.length - 1];
p.type('input', 'x');
p.el('query').click();
connect(s());
send(s(), match(['ab', 7]));
send(s(), match(['ba', 1]));
p.type('filter', 'q');
p.el('copy-wordlist').click();
assert.deepStrictEqual(p.el('custom-wordlist').value.split('\n').filter(x => x), shown());
