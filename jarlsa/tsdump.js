// Prints the syntax trees of TypeScript files as JSON: node tsdump.js FILE...
const ts = require(process.env.TS_LIB || '/opt/veriftools/node/node_modules/typescript');
const fs = require('fs');
const SKIP = new Set(['parent', 'flags', 'jsDoc', 'symbol', 'localSymbol', 'emitNode', 'flowNode', 'endFlowNode', 'locals', 'nextContainer', 'modifierFlagsCache',
  'transformFlags', 'id', 'kind', 'pos', 'end', 'endOfFileToken', 'path', 'resolvedPath', 'originalFileName', 'lineMap', 'identifiers', 'externalModuleIndicator']);
function go(n, sf) {
  if (Array.isArray(n)) return n.map(x => go(x, sf));
  const o = { k: ts.SyntaxKind[n.kind], l: sf.getLineAndCharacterOfPosition(n.getStart ? n.getStart(sf) : n.pos).line + 1 };
  if (n.text !== undefined && typeof n.text === 'string' && n.kind !== ts.SyntaxKind.SourceFile) o.text = n.text;
  if (n.escapedText !== undefined) o.text = ts.unescapeLeadingUnderscores(n.escapedText);
  if (typeof n.operator === 'number') o.op = ts.tokenToString(n.operator);
  else if (ts.isToken(n) && ts.tokenToString(n.kind)) o.op = ts.tokenToString(n.kind);
  for (const key of Object.keys(n)) {
    if (SKIP.has(key)) continue;
    const v = n[key];
    if (v && typeof v === 'object' && (Array.isArray(v) ? v.length === 0 || (v[0] && v[0].kind !== undefined) : v.kind !== undefined)) o[key] = go(v, sf);
  }
  return o;
}
const out = {};
for (const f of process.argv.slice(2)) {
  const sf = ts.createSourceFile(f, fs.readFileSync(f, 'utf8'), ts.ScriptTarget.Latest, true);
  if (sf.parseDiagnostics && sf.parseDiagnostics.length) { console.error(f + ': does not parse'); process.exit(2); }
  out[f] = go(sf.statements.slice(), sf);
}
console.log(JSON.stringify(out));
