'use strict';
// Drives the real openapi-generator command in this process on small source
// trees, and evaluates the same source trees with the real libraries, so that
// what the generator says can be compared with what the code does.
const fs = require('fs');
const path = require('path');
const { scratch } = require('./build');

class Exit extends Error { constructor(code) { super('exit ' + code); this.code = code; } }

module.exports = function gen(b) {
  const G = (f) => b.require(b.file('openapi-generator', f));
  const cliFile = b.file('openapi-generator', 'cli.js');
  const cmdPath = b.require.resolve('cmd-ts');
  const cmd = b.require('cmd-ts');
  const root = scratch('vmc-gen-');
  let current = new Set();

  function put(files, dir = root) {
    // same tree of files every time; remove what is no longer there
    for (const f of current) if (!(f in files)) fs.rmSync(path.join(dir, f), { force: true });
    for (const f of Object.keys(files)) {
      const p = path.join(dir, f);
      if (!current.has(f)) fs.mkdirSync(path.dirname(p), { recursive: true });
      fs.writeFileSync(p, files[f]);
    }
    current = new Set(Object.keys(files));
  }

  // process.exit / console are shared: only one command runs at a time here
  async function run(files, { entry = 'index.ts', args = [], keep = false } = {}) {
    if (!keep) put(files);
    return command([path.join(root, entry), ...args]);
  }
  async function command(argv) {
    const out = [], err = [];
    let promise;
    const saved = { exit: process.exit, argv: process.argv, log: console.log, error: console.error, warn: console.warn, info: console.info, stdout: process.stdout.write, stderr: process.stderr.write };
    let code, thrown;
    // (errors carry the stack of where they were made; collecting deep ones dominates the time)
    const limit = Error.stackTraceLimit;
    Error.stackTraceLimit = 4;
    delete require.cache[cliFile];
    const cached = require.cache[cmdPath];
    const orig = cached.exports;
    cached.exports = { ...cmd, run: (app, a) => (promise = cmd.run(app, a)) };
    process.argv = [process.execPath, cliFile, ...argv];
    const util = require('util');
    console.log = (...x) => out.push(util.format(...x));
    console.error = console.warn = (...x) => err.push(util.format(...x));
    console.info = (...x) => out.push(util.format(...x));
    process.exit = (c) => { if (code === undefined) code = c === undefined ? 0 : c; throw new Exit(code); };
    try {
      try { b.require(cliFile); await promise; } catch (e) { if (!(e instanceof Exit)) { thrown = e; if (code === undefined) code = 1; } }
    } finally {
      cached.exports = orig;
      Error.stackTraceLimit = limit;
      Object.assign(process, { exit: saved.exit, argv: saved.argv });
      Object.assign(console, { log: saved.log, error: saved.error, warn: saved.warn, info: saved.info });
    }
    if (code === undefined) code = 0;
    const stdout = out.length ? out.join('\n') + '\n' : '';
    let doc;
    if (stdout !== '') try { doc = JSON.parse(stdout); } catch (e) {}
    return { code, stdout, stderr: err.join('\n') + (thrown ? String(thrown.stack || thrown) : ''), doc, thrown };
  }

  // ---- evaluation of the same sources
  const ts = b.ts;
  const cacheJs = new Map();
  function transpile(src) {
    let js = cacheJs.get(src);
    if (js === undefined) {
      js = ts.transpileModule(src, { compilerOptions: { module: ts.ModuleKind.CommonJS, target: ts.ScriptTarget.ES2020, esModuleInterop: true } }).outputText;
      if (cacheJs.size > 20000) cacheJs.clear();
      cacheJs.set(src, js);
    }
    return js;
  }
  function evaluate(files, entry = 'index.ts', stubs = {}) {
    const mods = new Map();
    const load = (file) => {
      if (mods.has(file)) return mods.get(file).exports;
      const m = { exports: {} };
      mods.set(file, m);
      const find = (base) => {
        for (const cand of [base, base + '.ts', base + '.js', base + '/index.ts', base + '/index.js']) if (cand in files) return load(cand);
        throw new Error(`no module ${base} for ${file}`);
      };
      const req = (spec) => {
        if (!spec.startsWith('.')) {
          if (Object.prototype.hasOwnProperty.call(stubs, spec)) return stubs[spec];
          // the closest package of that name
          for (let d = path.posix.dirname(file); ; d = path.posix.dirname(d)) {
            const pj = path.posix.join(d, 'node_modules', spec, 'package.json');
            if (pj in files) { const info = JSON.parse(files[pj]); return find(path.posix.join(d, 'node_modules', spec, info.source || info.typings || info.types || info.main)); }
            if (d === '.' || d === '/') break;
          }
          return b.require(spec);
        }
        const base = path.posix.normalize(path.posix.join(path.posix.dirname(file), spec));
        return find(base);
      };
      new Function('module', 'exports', 'require', transpile(files[file]))(m, m.exports, req);
      return m.exports;
    };
    return load(entry);
  }

  // ---- OpenAPI 3.0 schemas: does the schema describe a JSON value?
  // (null is described by `nullable: true`, or by a schema that says nothing about the type)
  // lax: a property described as anything may be missing although it is listed as required
  let lax = false;
  function isAny(doc, s) {
    for (let i = 0; s && i < 20; i++) {
      if (typeof s.$ref === 'string') { const m = /^#\/components\/schemas\/(.+)$/.exec(s.$ref); s = m && doc.components.schemas[m[1]]; continue; }
      if (Array.isArray(s.allOf)) return s.allOf.every((x) => isAny(doc, x));
      return s.type === undefined && s.enum === undefined && !s.oneOf && !s.anyOf && !s.nullable;
    }
    return false;
  }
  function acceptsLax(doc, s, v) { lax = true; try { return accepts(doc, s, v); } finally { lax = false; } }
  function accepts(doc, s, v, depth = 0) {
    if (depth > 60) throw new Error('unbounded schema recursion');
    if (s === undefined || s === null || typeof s !== 'object') throw new Error('not a schema: ' + JSON.stringify(s));
    if (s.$ref !== undefined) {
      const m = /^#\/components\/schemas\/(.+)$/.exec(s.$ref);
      const target = m && doc.components && Object.prototype.hasOwnProperty.call(doc.components.schemas, m[1]) ? doc.components.schemas[m[1]] : undefined;
      if (!target) throw new Error('dangling reference ' + s.$ref);
      return accepts(doc, target, v, depth + 1);
    }
    if (v === null) {
      if (s.nullable === true) return true;
      if (s.type !== undefined || s.enum !== undefined) return false;
    } else {
      if (s.enum !== undefined && !s.enum.some((e) => e === v)) return false;
      switch (s.type) {
        case undefined: break;
        case 'string': if (typeof v !== 'string') return false; break;
        case 'number': if (typeof v !== 'number') return false; break;
        case 'integer': if (!Number.isInteger(v)) return false; break;
        case 'boolean': if (typeof v !== 'boolean') return false; break;
        case 'array': if (!Array.isArray(v)) return false; break;
        case 'object': if (typeof v !== 'object' || Array.isArray(v)) return false; break;
        default: throw new Error('unknown type ' + s.type);
      }
      if (typeof v === 'string') {
        if (s.minLength !== undefined && v.length < s.minLength) return false;
        if (s.maxLength !== undefined && v.length > s.maxLength) return false;
        if (s.pattern !== undefined && !new RegExp(s.pattern).test(v)) return false;
      }
      if (typeof v === 'number') {
        if (s.minimum !== undefined && (s.exclusiveMinimum === true ? !(v > s.minimum) : !(v >= s.minimum))) return false;
        if (s.maximum !== undefined && (s.exclusiveMaximum === true ? !(v < s.maximum) : !(v <= s.maximum))) return false;
      }
      if (Array.isArray(v)) {
        if (s.minItems !== undefined && v.length < s.minItems) return false;
        if (s.maxItems !== undefined && v.length > s.maxItems) return false;
        if (s.items !== undefined && !v.every((x) => accepts(doc, s.items, x, depth + 1))) return false;
      } else if (typeof v === 'object') {
        for (const k of s.required || []) if (!Object.prototype.hasOwnProperty.call(v, k) && !(lax && isAny(doc, s.properties && Object.prototype.hasOwnProperty.call(s.properties, k) ? s.properties[k] : undefined))) return false;
        for (const k of Object.keys(v)) {
          const p = s.properties && Object.prototype.hasOwnProperty.call(s.properties, k) ? s.properties[k] : undefined;
          if (p) { if (!accepts(doc, p, v[k], depth + 1)) return false; }
          else if (s.additionalProperties === false) return false;
          else if (s.additionalProperties && typeof s.additionalProperties === 'object' && !accepts(doc, s.additionalProperties, v[k], depth + 1)) return false;
        }
      }
    }
    if (s.allOf && !s.allOf.every((x) => accepts(doc, x, v, depth + 1))) return false;
    if (s.oneOf && !s.oneOf.some((x) => accepts(doc, x, v, depth + 1))) return false;
    if (s.anyOf && !s.anyOf.some((x) => accepts(doc, x, v, depth + 1))) return false;
    return true;
  }
  function refsOf(x, out = []) {
    if (Array.isArray(x)) x.forEach((y) => refsOf(y, out));
    else if (x && typeof x === 'object') { if (typeof x.$ref === 'string') out.push(x.$ref); Object.values(x).forEach((y) => refsOf(y, out)); }
    return out;
  }
  // a document is well formed when it is OpenAPI 3.0 in shape and every reference resolves
  function problems(doc) {
    const out = [];
    if (!doc || typeof doc !== 'object') return ['no document'];
    if (doc.openapi !== '3.0.3') out.push('openapi version');
    if (!doc.info || typeof doc.info.title !== 'string' || typeof doc.info.version !== 'string') out.push('info');
    if (!doc.paths || typeof doc.paths !== 'object') out.push('paths');
    (function walk(x, at) {
      if (Array.isArray(x)) return x.forEach((y, i) => walk(y, at + '/' + i));
      if (!x || typeof x !== 'object') return;
      if (x.type !== undefined && typeof x.type === 'string' && ['object', 'string', 'number', 'boolean', 'array', 'integer'].includes(x.type)) {
        if (Array.isArray(x.required) && new Set(x.required).size !== x.required.length) out.push(`repeated required at ${at}`);
        if (Array.isArray(x.required) && x.required.length === 0) out.push(`empty required at ${at}`);
        if (Array.isArray(x.enum) && new Set(x.enum).size !== x.enum.length) out.push(`repeated enum at ${at}`);
        if (x.type === 'array' && (x.items === undefined || x.items === null)) out.push(`array without items at ${at}`);
      }
      for (const k of Object.keys(x)) walk(x[k], at + '/' + k);
    })({ paths: doc.paths, components: doc.components }, '');
    for (const r of refsOf(doc)) {
      const m = /^#\/components\/schemas\/(.+)$/.exec(r);
      if (!m || !Object.prototype.hasOwnProperty.call(doc.components.schemas, m[1])) out.push('dangling ' + r);
    }
    return out;
  }

  return { root, put, run, command, evaluate, accepts, acceptsLax, refsOf, problems, G, transpile };
};
