// Translates one smart contract (the JavaScript dialect of src/contract/*.js) into C++ text with the same line numbers,
// so that the C++ fact extractor and everything behind it can be used on contracts. Usage: node jsx.js FILE.js OUT.cpp
'use strict';
const ts = require('/opt/veriftools/node/node_modules/typescript');
const fs = require('fs'), path = require('path');
const file = process.argv[2], name = path.basename(file, '.js');
const K = ts.SyntaxKind;
let src = fs.readFileSync(file, 'utf8');
const die = (m, pos) => { console.error('error: ' + file + ':' + (pos === undefined ? 0 : src.slice(0, pos).split('\n').length) + ': ' + m); process.exit(1); };

// dialect: attributes after the parameter list, interface declarations
const attrs = {}, interfaces = new Set();
const blank = s => s.replace(/[^\n]/g, ' ');
src = src.replace(/(\bfunction\s+(\w+)\s*\((?:[^()]|\([^()]*\))*\))((?:\s*\b(?:const|public|payable|static)\b)+)(?=\s*\{)/g, (m, h, n, a) => {
	attrs[n] = a.trim().split(/\s+/).sort(); return h + blank(a); });
src = src.replace(/^(\s*)interface\s+(\w+)\s*;/gm, (m, w, n) => { interfaces.add(n); return blank(m); });

const sf = ts.createSourceFile(file, src, ts.ScriptTarget.ES2020, true, ts.ScriptKind.JS);
if(sf.parseDiagnostics.length) die(String(sf.parseDiagnostics[0].messageText), sf.parseDiagnostics[0].start);

const CPP = new Set('arr obj object ctx null_ base ctx_t template class struct namespace auto register union signed unsigned int long short char float double bool operator private protected mutable explicit virtual friend inline extern goto sizeof typedef typename using volatile wchar_t asm and or not xor bitand bitor compl and_eq or_eq not_eq xor_eq'.split(' '));
const id = n => CPP.has(n) ? n + '_' : n;
const BUILTIN_CONST = new Set('size balance bech32 uint uint_hex is_uint is_string is_object is_array is_map string string_hex string_bech32 to_string to_string_hex binary binary_hex binary_le concat sha256 ecdsa_verify read min max bech32_of clone typeof memcpy bls_verify equals deref'.split(' '));
const BUILTIN = new Set('send mint push pop rcall event log set get erase print delete_ compile'.split(' '));
const globals = new Set(), funcs = new Set();
for(const s of sf.statements) {
	if(ts.isVariableStatement(s)) for(const d of s.declarationList.declarations) globals.add(d.name.text);
	if(ts.isFunctionDeclaration(s)) funcs.add(s.name.text);
}
const props = new Set(), thisprops = new Set(), called = new Set();

// which names are used as objects (member or index access, iteration) within a function
function objuses(fn) {
	const s = new Set();
	(function w(n) {
		if((ts.isPropertyAccessExpression(n) || ts.isElementAccessExpression(n)) && ts.isIdentifier(n.expression)) s.add(n.expression.text);
		if(ts.isForOfStatement(n) && ts.isIdentifier(n.expression)) s.add(n.expression.text);
		if(ts.isCallExpression(n) && ts.isIdentifier(n.expression) && funcs.has(n.expression.text)) {
			const f = fbody[n.expression.text];
			n.arguments.forEach((a, i) => { if(ts.isIdentifier(a) && f && f.parameters[i] && paramobj(f, i)) s.add(a.text); });
		}
		ts.forEachChild(n, w);
	})(fn);
	return s;
}
const fbody = {}; for(const s of sf.statements) if(ts.isFunctionDeclaration(s)) fbody[s.name.text] = s;
const busy = new Set();
function paramobj(f, i) {
	const k = f.name.text + i; if(busy.has(k)) return false;
	busy.add(k); const r = objuses(f).has(f.parameters[i].name.text); busy.delete(k); return r;
}

// numeric constants are replaced by their value wherever they are used
const numconst = new Map();
for(const s of sf.statements) if(ts.isVariableStatement(s) && s.declarationList.flags & ts.NodeFlags.Const)
	for(const d of s.declarationList.declarations) if(d.initializer && ts.isNumericLiteral(d.initializer)) numconst.set(d.name.text, BigInt(d.initializer.getText(sf)));
function names(fn) {
	const s = new Set();
	(function w(n) { if((ts.isParameter(n) || ts.isVariableDeclaration(n)) && ts.isIdentifier(n.name)) s.add(n.name.text); ts.forEachChild(n, w); })(fn);
	return s;
}
let locals = new Set(), reassigned = new Set();
function assigned(fn) {
	const s = new Set();
	(function w(n) { if(ts.isBinaryExpression(n) && n.operatorToken.kind === K.EqualsToken && ts.isIdentifier(n.left)) s.add(n.left.text); ts.forEachChild(n, w); })(fn);
	return s;
}
let edits = [];
const rep = (a, b, t) => edits.push([a, b, t]);
let obj = new Set(), lastloc = new Set();
const st = n => n.getStart(sf);
const keep = (a, b) => src.slice(a, b).replace(/[^\n]/g, '');   // the newlines of a removed range
function lvalue(e) {
	while(ts.isParenthesizedExpression(e)) e = e.expression;
	return ts.isIdentifier(e) && e.text !== 'null' || ts.isElementAccessExpression(e) || ts.isPropertyAccessExpression(e);
}
function walk(n) {
	if(infn && (ts.isExpressionStatement(n) || ts.isReturnStatement(n) && n.expression)) return hoist(n, true);
	if(infn && ts.isVariableStatement(n)) return hoist(n, false);
	return walk1(n);
}
let infn = false;
function walk1(n) {
	switch(n.kind) {
	case K.FunctionDeclaration: {
		obj = objuses(n); locals = names(n); reassigned = assigned(n);
		rep(st(n), n.name.end, 'var ' + id(n.name.text));
		const a = attrs[n.name.text] || [];
		for(const p of n.parameters) {
			rep(st(p), p.name.end, (obj.has(p.name.text) ? 'var& ' : 'var ') + id(p.name.text));
			if(p.initializer) walk(p.initializer);
		}
		infn = true; walk(n.body); infn = false;
		return;
	}
	case K.VariableDeclarationList: {
		const top = n.parent.parent === sf, fl = (n.parent.kind === K.ForStatement);
		n.declarations.forEach((d, i) => {
			const nm = d.name.text; if(!nm) die('destructuring', st(d));
			if(ts.isForOfStatement(n.parent)) { rep(st(n), d.name.end, 'var& ' + id(nm)); return; }
			const o = !top && obj.has(nm) && !reassigned.has(nm) && d.initializer && lvalue(d.initializer);
			const cst = (n.flags & ts.NodeFlags.Const) && !o && !top && !obj.has(nm);
			const k = top && (n.flags & ts.NodeFlags.Const) && d.initializer && ts.isNumericLiteral(d.initializer);
			const t = k ? 'static constexpr unsigned long ' : o ? 'var& ' : cst ? 'const var ' : 'var ';
			if(fl && !d.initializer) die('loop variable', st(d));
			const lit = d.initializer && !top && (ts.isArrayLiteralExpression(d.initializer) || ts.isObjectLiteralExpression(d.initializer));
			if(lit) {
				if(ts.isObjectLiteralExpression(d.initializer) && d.initializer.properties.length) {
					d.initializer.properties.forEach(p => { if(!ts.isPropertyAssignment(p)) die('object member', st(p)); walk(p.initializer); });
					const a = i ? st(d) : st(n), o = src.slice(a, d.initializer.end), t = (i ? '; ' : '') + 'object ' + id(nm) + ' = object(obj()); ' + fill(id(nm), d.initializer).replace(/;$/, '');
					rep(a, d.initializer.end, t + '\n'.repeat(Math.max(0, nls(o) - nls(t))));
					if(i) { const c = src.lastIndexOf(',', st(d)); rep(c, c + 1, ''); }
					return;
				}
				rep(i ? st(d) : st(n), d.initializer.getStart(sf), (i ? '; ' : '') + 'object ' + id(nm) + ' = object(');
				walk(d.initializer); rep(d.initializer.end, d.initializer.end, ')');
				if(i) { const c = src.lastIndexOf(',', st(d)); rep(c, c + 1, ''); }
				return;
			}
			rep(i ? st(d) : st(n), d.name.end, (i ? '; ' : '') + t + id(nm));
			if(i) { const c = src.lastIndexOf(',', st(d)); rep(c, c + 1, ''); }
			if(d.initializer) walk(d.initializer);
			else if(!top) rep(d.name.end, d.name.end, ' = null_');
		});
		return;
	}
	case K.ForOfStatement: {
		walk(n.initializer);
		const k = src.indexOf(' of ', n.initializer.end); rep(k, k + 4, ' : ');
		walk(n.expression); walk(n.statement); return;
	}
	case K.Identifier:
		if(numconst.has(n.text) && !locals.has(n.text)) { const v = numconst.get(n.text); rep(st(n), n.end, v.toString() + (v > 2147483647n ? 'UL' : '')); return; }
		if(n.text === 'undefined') { rep(st(n), n.end, 'null_'); return; }
		if(id(n.text) !== n.text) rep(st(n), n.end, id(n.text)); return;
	case K.ReturnStatement: if(!n.expression) { rep(st(n), st(n) + 6, 'return null_'); return; } break;
	case K.VoidExpression: rep(st(n), n.expression.getStart(sf), ''); walk(n.expression); return;
	case K.ThisKeyword: rep(st(n), n.end, 'ctx'); return;
	case K.NullKeyword: rep(st(n), n.end, 'null_'); return;
	case K.EqualsEqualsEqualsToken: rep(st(n), n.end, '=='); return;
	case K.ExclamationEqualsEqualsToken: rep(st(n), n.end, '!='); return;
	case K.StringLiteral: rep(st(n), n.end, JSON.stringify(n.text)); return;
	case K.NumericLiteral: rep(st(n), n.end, BigInt(n.getText(sf)).toString() + (BigInt(n.getText(sf)) > 2147483647n ? 'UL' : '')); return;
	case K.PropertyAccessExpression:
		if(n.expression.kind === K.ThisKeyword) thisprops.add(id(n.name.text)); else props.add(id(n.name.text));
		if(n.expression.kind === K.PropertyAccessExpression && n.expression.expression.kind === K.ThisKeyword) props.add(id(n.name.text));
		if(id(n.name.text) !== n.name.text) rep(st(n.name), n.name.end, id(n.name.text));
		walk(n.expression); return;
	case K.ArrayLiteralExpression:
		rep(st(n), st(n) + 1, 'arr('); rep(n.end - 1, n.end, ')');
		if(n.elements.hasTrailingComma) rep(n.elements.end - 1, n.elements.end, '');
		n.elements.forEach(walk); return;
	case K.ObjectLiteralExpression: {
		// an object literal becomes a fresh object that is filled before the statement it is used in
		if(!pending || !n.properties.length && !(n.parent.kind === K.BinaryExpression && n.parent.operatorToken.kind === K.EqualsToken)) {
			if(n.properties.length) die('object literal outside a function', st(n));
			rep(st(n), n.end, 'obj()'); return;
		}
		const o = 'o_' + (++nobj), nl = s => s.split('\n').length - 1;
		n.properties.forEach(p => { if(!ts.isPropertyAssignment(p)) die('object member', st(p)); walk(p.initializer); });
		pending.push('object ' + o + ' = object(obj()); ' + fill(o, n));
		rep(st(n), n.end, o);
		return;
	}
	case K.ExpressionStatement: {
		const c = n.expression;
		if(ts.isCallExpression(c) && ts.isIdentifier(c.expression) && c.expression.text === 'assert') {
			const a = c.arguments;
			rep(st(n), st(a[0]), 'if(!(');
			walk(a[0]);
			rep(a[0].end, n.end, ')) throw std::runtime_error("assert");' + keep(a[0].end, n.end));
			return;
		}
		if(ts.isCallExpression(c) && ts.isIdentifier(c.expression) && c.expression.text === 'fail') {
			rep(st(n), n.end, 'throw std::runtime_error("fail");' + keep(st(n), n.end)); return;
		}
		walk(c); return;
	}
	case K.CallExpression: {
		const f = n.expression;
		if(ts.isIdentifier(f)) {
			if(!funcs.has(f.text)) called.add(f.text);
			if(id(f.text) !== f.text) rep(st(f), f.end, id(f.text));
		} else if(ts.isPropertyAccessExpression(f) && ts.isIdentifier(f.expression) && interfaces.has(f.expression.text)) {
			rep(st(f), f.end + 1, 'rcall(' + JSON.stringify(f.expression.text) + ', ' + JSON.stringify(f.name.text) + (n.arguments.length ? ', ' : ''));
			called.add('rcall');
		} else walk(f);
		n.arguments.forEach(walk); return;
	}
	}
	ts.forEachChild(n, walk);
}
function apply(a, b) {
	let out = '', p = a;
	for(const [x, y, t] of edits.filter(e => e[0] >= a && e[1] <= b).sort((u, v) => u[0] - v[0] || u[1] - v[1])) {
		if(x < p) die('overlapping edits', x);
		out += src.slice(p, x) + t; p = y;
	}
	return out + src.slice(p, b);
}
let pending = null, nobj = 0;
// the edited text of a range, whose edits are used up
function grab(a, b) {
	const t = apply(a, b); edits = edits.filter(e => !(e[0] >= a && e[1] <= b)); return t;
}
const fill = (o, n) => n.properties.map(p => {
	const v = grab(p.initializer.getStart(sf), p.initializer.end);
	if(ts.isIdentifier(p.name)) { props.add(id(p.name.text)); return o + '.' + id(p.name.text) + ' = ' + v + ';'; }
	return o + '[' + (ts.isNumericLiteral(p.name) ? p.name.text : JSON.stringify(p.name.text)) + '] = ' + v + ';';
}).join(' ');
const nls = s => s.split('\n').length - 1;
// a statement with object literals: { fresh objects; statement }
function hoist(n, brace) {
	const outer = pending; pending = [];
	walk1(n);
	const h = pending; pending = outer;
	if(!h.length) return;
	const t = grab(st(n), n.end), all = (brace ? '{ ' : '') + h.join(' ') + ' ' + t + (brace ? ' }' : '');
	rep(st(n), n.end, all + '\n'.repeat(Math.max(0, nls(src.slice(st(n), n.end)) - nls(all))));
}
const inits = [], imported = new Set();
for(const s of sf.statements) {
	if(ts.isVariableStatement(s)) {
		for(const d of s.declarationList.declarations)
			if(!(s.declarationList.flags & ts.NodeFlags.Const && d.initializer && ts.isNumericLiteral(d.initializer))) inits.push(d);
		walk(s);
	}
	else if(ts.isFunctionDeclaration(s)) walk(s);
	else if(ts.isImportDeclaration(s)) { rep(st(s), s.end, ''); for(const e of s.importClause.namedBindings.elements) imported.add(e.name.text); }
	else if(s.kind !== K.EmptyStatement) die('statement at top level', st(s));
}
// top-level initialisers become a synthetic function, constants are folded by value
let body = apply(0, src.length);
const setup = inits.map(d => id(d.name.text) + ' = ' + (d.initializer ? apply(d.initializer.pos, d.initializer.end).trim().replace(/\/\/[^\n]*/g, ' ').replace(/\s+/g, ' ') : 'null_') + ';').join(' ');
const methods = Object.keys(fbody).map(f => 'method(' + JSON.stringify(f) + ', ' + JSON.stringify((attrs[f] || []).join(' ')) + ');').join(' ');
const unknown = [...called].filter(f => !BUILTIN.has(f) && !BUILTIN_CONST.has(f) && !imported.has(f) && f !== 'assert' && f !== 'fail');
if(unknown.length) die('unknown function ' + unknown[0]);
const pre = ['namespace js {', 'class var { public: var(); var(const var&); template<class T> var(const T&); ~var();',
	'template<class T> var& operator=(const T&); template<class T> var& operator+=(const T&); template<class T> var& operator-=(const T&); template<class T> var& operator*=(const T&); template<class T> var& operator/=(const T&);',
	'var& operator=(const var&); var& operator+=(const var&); var& operator-=(const var&); var& operator++(); var operator++(int); var& operator--(); var operator--(int); bool operator!() const; explicit operator bool() const;',
	'template<class T> var& operator[](const T&) const; var* begin() const; var* end() const;',
	[...props].sort().map(p => 'var& ' + p + ';').join(' '), '};',
	['+', '-', '*', '/', '%', '<<', '>>', '&', '|', '^'].map(o => `var operator${o}(const var&, const var&);`).join(' '),
	['==', '!=', '<', '>', '<=', '>='].map(o => `bool operator${o}(const var&, const var&);`).join(' '),
	'class object : public var { public: explicit object(const var&); object(const object&); object& operator=(const var&); };',
	'struct ctx_t { ' + [...thisprops].sort().map(p => 'var ' + p + ';').join(' ') + ' };',
	'extern const var null_; template<class... A> var arr(const A&...); template<class... A> var obj(const A&...);',
	'struct base { ctx_t ctx; void method(const char*, const char*);',
	[...called].filter(f => f !== 'assert' && f !== 'fail').sort().map(f => 'template<class... A> var ' + id(f) + '(const A&...)' + (BUILTIN_CONST.has(f) ? ' const' : '') + ';').join(' '), '};',
	'struct ' + (funcs.has(name) ? 'std_' + name : id(name)) + ' : base { '].join(' ');
fs.writeFileSync(process.argv[3], pre + body + ' void _init_state() { ' + setup + ' } void _methods() { ' + methods + ' } }; }\n');
