// C34: the ASG schema (with its `defaults` keyword) and the validate-asg program
// against an independent recogniser, on all documents of bounded spaces.
//
//   node check.mjs            quick (VERIF_TIER=thorough: deeper)
//   node check.mjs replay FILE
import fs from 'node:fs'
import os from 'node:os'
import path from 'node:path'
import process from 'node:process'
import { execFile } from 'node:child_process'
import { createRequire } from 'node:module'
import { inspect, isDeepStrictEqual } from 'node:util'
import { pathToFileURL } from 'node:url'

const ID = 'C34'
const HOME = process.env.MC_HOME ?? path.dirname(path.dirname(new URL(import.meta.url).pathname))
const ASG = process.env.ASG_DIR ?? '/repo/asg'
const MODULES = '/opt/veriftools/node/node_modules'
const thorough = process.env.VERIF_TIER === 'thorough'
const started = Date.now()

const Ajv = createRequire(path.join(MODULES, 'x.js'))('ajv/dist/2020.js').default

// ---------------------------------------------------------------- the model

// What a node may and must have. Values are recognised by functions that also give
// the completed value (with defaults), or undefined if it is not of that form.
const BAD = undefined
let steps = 0
const isObj = (v) => typeof v === 'object' && v !== null && !Array.isArray(v)
const str = (v) => (typeof v === 'string' ? v : BAD)
const is = (...all) => (v) => (all.includes(v) ? v : BAD)
const int = (min) => (v) => (Number.isInteger(v) && v >= min ? v : BAD)
const list = (of, min = 0) => (v) => {
  if (!Array.isArray(v) || v.length < min) return BAD
  const out = v.map(of)
  return out.includes(BAD) ? BAD : out
}
// fields: name -> [recogniser, required?]; fill: names with a value if they are left out
const object = (fields, fill = {}) => (v) => {
  steps++
  if (!isObj(v)) return BAD
  const f = typeof fields === 'function' ? fields(v) : fields
  if (!f) return BAD
  const out = {}
  for (const k of Object.keys(v)) {
    if (!Object.hasOwn(f, k)) return BAD
    const x = f[k][0](v[k])
    if (x === BAD) return BAD
    out[k] = x
  }
  for (const k of Object.keys(f)) if (f[k][1] && !Object.hasOwn(v, k)) return BAD
  for (const k of Object.keys(fill)) if (!Object.hasOwn(v, k)) out[k] = structuredClone(fill[k])
  return out
}
const map = (name, of) => (v) => {
  steps++
  if (!isObj(v)) return BAD
  for (const k of Object.keys(v)) if (!name(k) || of(v[k]) === BAD) return BAD
  return v
}
const letter = (c) => (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')
const digit = (c) => c >= '0' && c <= '9'
const nameOf = (first) => (s) =>
  s.length > 0 && [...s].every((c, i) => letter(c) || digit(c) || c === '_' || c === '-') && first(s[0])
const docAttribute = nameOf((c) => c !== '-')
const blockAttribute = (s) =>
  s[0] === '$'
    ? s.length > 1 && s[1] !== '0' && [...s.slice(1)].every(digit)
    : nameOf((c) => c !== '-' && !digit(c))(s)

const opt = (f) => [f, false]
const req = (f) => [f, true]
const boundary = object({ line: req(int(1)), col: req(int(0)), file: opt(list(str, 1)) })
const location = (v) => {
  const l = list(boundary)(v)
  return l && l.length === 2 ? l : BAD
}
const inline = (v) => {
  if (!isObj(v)) return BAD
  const parent = { name: req(str), type: req(is('inline')), inlines: req(inlines), location: opt(location) }
  switch (v.name) {
    case 'span':
      return object({
        ...parent,
        variant: req(is('strong', 'emphasis', 'code', 'mark')),
        form: req(is('constrained', 'unconstrained')),
      })(v)
    case 'ref':
      return object({ ...parent, variant: req(is('link', 'xref')), target: req(str) })(v)
    case 'text':
    case 'charref':
    case 'raw':
      return object({ name: req(str), type: req(is('string')), value: req(str), location: opt(location) })(v)
    default:
      return BAD
  }
}
const inlines = (v) => list(inline)(v)
const metadata = object(
  {
    attributes: opt(map(blockAttribute, str)),
    options: opt(list(str)),
    roles: opt(list(str)),
    location: opt(location),
  },
  { attributes: {}, options: [], roles: [] }
)
const common = {
  name: req(str),
  type: req(is('block')),
  id: opt(str),
  title: opt(inlines),
  reftext: opt(inlines),
  metadata: opt(metadata),
  location: opt(location),
}
const heading = { ...common, title: req(inlines), level: req(int(0)) }
const item = { ...common, marker: req(str), principal: opt(inlines), blocks: opt((v) => list(block)(v)) }
const ITEM_FILL = { blocks: [] }
const named = (n, f) => (v) => (isObj(v) && v.name === n ? f(v) : BAD)
const listItem = named('listItem', object({ ...item, principal: req(inlines) }, ITEM_FILL))
const dlistItem = named('dlistItem', object({ ...item, terms: req(list(inlines, 1)) }, ITEM_FILL))
const section = named('section', object({ ...heading, blocks: opt((v) => list(any)(v)) }, { blocks: [] }))
const block = (v) => {
  if (!isObj(v)) return BAD
  switch (v.name) {
    case 'list':
      return object({
        ...common,
        marker: req(str),
        variant: req(is('callout', 'ordered', 'unordered')),
        items: req(list(listItem, 1)),
      })(v)
    case 'dlist':
      return object({ ...common, marker: req(str), items: req(list(dlistItem, 1)) })(v)
    case 'heading':
      return object(heading)(v)
    case 'break':
      return object({ ...common, variant: req(is('page', 'thematic')) })(v)
    case 'audio':
    case 'video':
    case 'image':
    case 'toc':
      return object({ ...common, form: req(is('macro')), target: opt(str) })(v)
    case 'listing':
    case 'literal':
    case 'paragraph':
    case 'pass':
    case 'stem':
    case 'verse':
      return object(
        {
          ...common,
          form: opt(is('delimited', 'indented', 'paragraph')),
          inlines: opt(inlines),
          ...(v.form === 'delimited' ? { delimiter: req(str) } : {}),
        },
        { inlines: [] }
      )(v)
    case 'admonition':
    case 'example':
    case 'sidebar':
    case 'open':
    case 'quote':
      return object(
        {
          ...common,
          form: req(is('delimited')),
          delimiter: req(str),
          blocks: opt(list(block)),
          ...(v.name === 'admonition' ? { variant: req(is('caution', 'important', 'note', 'tip', 'warning')) } : {}),
        },
        { blocks: [] }
      )(v)
    default:
      return BAD
  }
}
const any = (v) => (isObj(v) && v.name === 'section' ? section(v) : block(v))
const author = object(
  Object.fromEntries(['fullname', 'initials', 'firstname', 'middlename', 'lastname', 'address'].map((n) => [n, opt(str)]))
)
const header = object({ title: opt(inlines), authors: opt(list(author, 1)), location: opt(location) })
const document = object(
  (v) => ({
    name: req(is('document')),
    type: req(is('block')),
    attributes: [map(docAttribute, (x) => (typeof x === 'string' || x === null || x === false ? x : BAD)), Object.hasOwn(v, 'header')],
    header: opt(header),
    blocks: opt(list(any)),
    location: opt(location),
  }),
  { blocks: [] }
)

// ---------------------------------------------------------------- what is explored

const L = [{ line: 1, col: 1 }, { line: 2, col: 0 }]
const T = (value = 'x') => ({ name: 'text', type: 'string', value })
const doc = (...blocks) => ({ name: 'document', type: 'block', blocks })
const para = (...i) => ({ name: 'paragraph', type: 'block', inlines: i })
const COMMON = { type: 'block', id: 'i', title: [T('t')], reftext: [T('r')], metadata: { roles: ['r'] }, location: L }
const LI = { name: 'listItem', type: 'block', marker: '*', principal: [T('p')] }
const DLI = { name: 'dlistItem', type: 'block', marker: '::', terms: [[T('p')]] }

// Kinds of nodes: all properties they can have, those they must have, and where they are.
const inDoc = (n) => doc(n)
const inPara = (n) => doc(para(n))
const KINDS = [
  ['document', { name: 'document', type: 'block', attributes: { a: '' }, header: { title: [] }, blocks: [para()], location: L }, ['name', 'type'], (n) => n],
  ['header', { title: [T()], authors: [{ fullname: 'A' }], location: L }, [], (n) => ({ ...doc(), attributes: {}, header: n })],
  ['author', { fullname: 'a', initials: 'b', firstname: 'c', middlename: 'd', lastname: 'e', address: 'f' }, [], (n) => ({ ...doc(), attributes: {}, header: { authors: [n] } })],
  ['section', { name: 'section', ...COMMON, level: 1, blocks: [para()] }, ['name', 'type', 'title', 'level'], inDoc],
  ['heading', { name: 'heading', ...COMMON, level: 1 }, ['name', 'type', 'title', 'level'], inDoc],
  ['list', { name: 'list', ...COMMON, marker: '*', variant: 'ordered', items: [LI] }, ['name', 'type', 'marker', 'variant', 'items'], inDoc],
  ['listItem', { ...LI, ...COMMON, blocks: [para()] }, ['name', 'type', 'marker', 'principal'], (n) => doc({ name: 'list', type: 'block', marker: '.', variant: 'callout', items: [n] })],
  ['dlist', { name: 'dlist', ...COMMON, marker: '::', items: [DLI] }, ['name', 'type', 'marker', 'items'], inDoc],
  ['dlistItem', { ...DLI, ...COMMON, principal: [T()], blocks: [para()] }, ['name', 'type', 'marker', 'terms'], (n) => doc({ name: 'dlist', type: 'block', marker: '::', items: [n] })],
  ...['page', 'thematic'].map((v) => ['break ' + v, { name: 'break', ...COMMON, variant: v }, ['name', 'type', 'variant'], inDoc]),
  ...['audio', 'video', 'image', 'toc'].map((n) => [n, { name: n, ...COMMON, form: 'macro', target: 'u' }, ['name', 'type', 'form'], inDoc]),
  ...['listing', 'literal', 'paragraph', 'pass', 'stem', 'verse'].flatMap((n) => [
    [n, { name: n, ...COMMON, form: 'delimited', delimiter: '----', inlines: [T()] }, ['name', 'type', 'form', 'delimiter'], inDoc],
    [n + ' without delimiter', { name: n, ...COMMON, form: 'indented', inlines: [T()] }, ['name', 'type'], inDoc],
  ]),
  ...['admonition', 'example', 'sidebar', 'open', 'quote'].map((n) => [
    n,
    { name: n, ...COMMON, form: 'delimited', delimiter: '====', blocks: [para()], ...(n === 'admonition' ? { variant: 'tip' } : {}) },
    ['name', 'type', 'form', 'delimiter', 'variant'],
    inDoc,
  ]),
  ['metadata', { attributes: { a: 'b' }, options: ['o'], roles: ['r'], location: L }, [], (n) => doc({ ...para(), metadata: n })],
  ['span', { name: 'span', type: 'inline', inlines: [T()], variant: 'mark', form: 'constrained', location: L }, ['name', 'type', 'inlines', 'variant', 'form'], inPara],
  ['ref', { name: 'ref', type: 'inline', inlines: [T()], variant: 'xref', target: 't', location: L }, ['name', 'type', 'inlines', 'variant', 'target'], inPara],
  ...['text', 'charref', 'raw'].map((n) => [n, { name: n, type: 'string', value: 'v', location: L }, ['name', 'type', 'value'], inPara]),
  ['boundary', { line: 1, col: 0, file: ['f'] }, ['line', 'col'], (n) => ({ ...doc(), location: [n, { line: 3, col: 4 }] })],
]

// A value for each property there is, for those where it doesn't belong.
const FOREIGN = { ...Object.assign({}, ...KINDS.map((k) => k[1])), name: 'paragraph', type: 'block', unknown: 1, blocks: [], inlines: [], items: [LI] }
const NAMES = [...new Set([...KINDS.map((k) => k[1].name ?? k[0]), 'document', 'Section', 'admonition', 'x', ''])]
const VALUES = [
  null, true, false, 0, 1, -1, 1.5, '', 'x', [], {}, [null], [''], ['x'], [[]], [T()], [para()], [[T()]], [LI], [DLI], { a: '' }, { a: null }, { a: 1 }, { '': '' },
  'block', 'inline', 'string', 'macro', 'delimited', 'indented', 'paragraph', 'constrained', 'unconstrained', 'strong', 'emphasis', 'code', 'mark', 'link', 'xref',
  'page', 'thematic', 'callout', 'ordered', 'unordered', 'caution', 'important', 'note', 'tip', 'warning', 'Note', L, [L[0]], [...L, L[0]], [L[0], null], ...NAMES,
]

const FEW = thorough ? VALUES : [null, false, 1, '', 'x', [], {}, [T()], [LI], [DLI], 'block', 'macro', 'delimited', 'constrained', 'strong', 'link', 'page', 'ordered', 'tip', 'admonition', 'example', 'section', 'text', 'image']

const without = (o, ...names) => Object.fromEntries(Object.entries(o).filter(([k]) => !names.includes(k)))
function * subsets (names) {
  for (let m = 0; m < 1 << names.length; m++) yield names.filter((_, i) => m & (1 << i))
}
function * words (alphabet, min, max) {
  let layer = ['']
  for (let n = 0; n <= max; n++) {
    if (n >= min) yield * layer
    layer = layer.flatMap((w) => alphabet.map((c) => w + c))
  }
}

const MINIMAL = KINDS.map(([name, all, must, place]) => [name, Object.fromEntries(Object.entries(all).filter(([k]) => must.includes(k)))])
const NODES = Object.fromEntries(MINIMAL)
// Nodes with children: makes one with the given child.
const PARENTS = [
  ...['section'].flatMap((n) => [(c) => ({ ...NODES[n], blocks: [c] }), (c) => ({ ...NODES[n], title: [c] }), (c) => ({ ...NODES[n], blocks: [para(), c] })]),
  ...['admonition', 'example', 'sidebar', 'open', 'quote'].map((n) => (c) => ({ ...NODES[n], blocks: [c] })),
  (c) => ({ ...NODES.list, items: [c] }),
  (c) => ({ ...NODES.list, items: [LI, c] }),
  (c) => ({ ...NODES.list, items: [{ ...LI, blocks: [c] }] }),
  (c) => ({ ...NODES.list, items: [{ ...LI, principal: [c] }] }),
  (c) => ({ ...NODES.dlist, items: [c] }),
  (c) => ({ ...NODES.dlist, items: [{ ...DLI, blocks: [c] }] }),
  (c) => ({ ...NODES.dlist, items: [{ ...DLI, principal: [c] }] }),
  (c) => ({ ...NODES.dlist, items: [{ ...DLI, terms: [[c]] }] }),
  (c) => ({ ...NODES.dlist, items: [{ ...DLI, terms: [[], [T(), c]] }] }),
  (c) => ({ ...NODES.listItem, blocks: [c] }),
  (c) => ({ ...NODES.heading, title: [c] }),
  (c) => ({ ...NODES.span, inlines: [c] }),
  (c) => ({ ...NODES.ref, inlines: [T(), c] }),
  ...['listing', 'literal', 'paragraph', 'pass', 'stem', 'verse'].map((n) => (c) => ({ name: n, type: 'block', inlines: [c] })),
  (c) => ({ ...para(), title: [c] }),
  (c) => ({ ...para(), reftext: [c] }),
  (c) => ({ ...para(), metadata: c }),
  (c) => ({ ...NODES.toc, title: [c] }),
  (c) => ({ ...NODES['break page'], reftext: [c] }),
]

const spaces = [
  ['every set of properties, and one that is of other nodes', function * () {
    for (const [, all, must, place] of KINDS) {
      for (const s of subsets(Object.keys(all))) {
        const n = Object.fromEntries(s.map((k) => [k, all[k]]))
        yield place(n)
        const missing = must.filter((k) => !s.includes(k)).length
        if (!thorough && missing > 0) continue
        for (const f of Object.keys(FOREIGN)) if (!Object.hasOwn(all, f)) yield place({ ...n, [f]: FOREIGN[f] })
      }
    }
  }],
  ['every value of every property', function * () {
    for (const [name, all, , place] of KINDS) {
      const min = NODES[name]
      for (const k of [...Object.keys(all), 'unknown', '', '__proto']) {
        for (const v of VALUES) {
          yield place({ ...all, [k]: v })
          yield place({ ...min, [k]: v })
        }
      }
    }
  }],
  ['every value of two properties', function * () {
    for (const [name, all, , place] of KINDS) {
      const min = NODES[name]
      const keys = Object.keys(all).filter((k) => thorough || !['id', 'reftext', 'metadata', 'location'].includes(k))
      for (const a of keys) {
        for (const b of keys) {
          if (a >= b) continue
          for (const v of FEW) for (const w of FEW) yield place({ ...min, [a]: v, [b]: w })
        }
      }
    }
  }],
  ['every node in every place', function * () {
    const all = MINIMAL.map((m) => m[1])
    const roots = [inDoc, (c) => ({ ...doc(), attributes: {}, header: { title: [c] } }), (c) => ({ ...doc(), attributes: {}, header: c })]
    let layer = all
    for (let depth = 0; depth <= (thorough ? 3 : 2); depth++) {
      for (const n of layer) {
        for (const r of roots) yield r(n)
        yield n
      }
      const inner = layer
      layer = { * [Symbol.iterator] () { for (const n of inner) for (const p of PARENTS) yield p(n) } }
    }
  }],
  ['every value in every place', function * () {
    for (const v of VALUES) {
      yield v
      for (const [, , , place] of KINDS) yield place(v)
      for (const p of PARENTS) {
        yield inDoc(p(v))
        for (const q of thorough ? PARENTS : []) yield inDoc(q(p(v)))
      }
    }
  }],
  ['names of attributes', function * () {
    const chars = ['a', 'Z', '_', '0', '1', '9', '-', '$', 'é', ' ', '.', '\n']
    for (const n of words(chars, 0, thorough ? 4 : 3)) {
      yield { ...doc(), attributes: { [n]: 'v' } }
      yield doc({ ...para(), metadata: { attributes: { [n]: 'v' } } })
    }
    for (const v of VALUES) {
      yield { ...doc(), attributes: { a: v, b: 'c' } }
      yield doc({ ...para(), metadata: { attributes: { a: v, $2: 'c' } } })
    }
  }],
  ['locations', function * () {
    const num = [-1, 0, 1, 2, 1.5, 1e9, '1', null]
    const files = [undefined, [], ['f'], ['f', 'g'], [1], 'f', null]
    for (const line of num) {
      for (const col of num) {
        for (const file of files) {
          const b = file === undefined ? { line, col } : { line, col, file }
          for (const l of [[b, b], [b, L[1]], [L[0], b], [b], [b, b, b], []]) {
            yield { ...doc(), location: l }
            yield doc(para({ ...T(), location: l }))
            if (l.length === 2) yield doc({ ...para(), metadata: { location: l } })
          }
        }
      }
    }
  }],
  ['levels and texts', function * () {
    for (const level of [-1, 0, 1, 2, 5, 6, 100, 0.5, '1', null]) {
      for (const name of ['section', 'heading']) for (const title of [[], [T('')], 'x', undefined]) yield doc({ name, type: 'block', level, ...(title && { title }) })
    }
  }],
]

// ---------------------------------------------------------------- the implementation

const show = (v) => inspect(v, { depth: Infinity })

async function implementation (dir) {
  const cwd = process.cwd()
  process.chdir(dir)
  const keyword = (await import(pathToFileURL(path.join(dir, 'lib/ajv-keyword-defaults.js')))).default
  const schema = (await import(pathToFileURL(path.join(dir, 'schema.js')))).default
  process.chdir(cwd)
  const ajv = new Ajv({ allErrors: false, discriminator: true, keywords: [keyword()] })
  return ajv.compile(schema)
}

// One document: the verdict, the completed document, and that it is complete.
function check (validate, input) {
  const want = document(input)
  const got = structuredClone(input)
  const ok = validate(got)
  if (ok !== (want !== BAD)) return `${ok ? 'accepted' : 'rejected: ' + validate.errors?.[0]?.message}, but the document is ${ok ? 'not ' : ''}well formed`
  if (!ok) return
  if (!isDeepStrictEqual(got, want)) return `completed as ${show(got)}, expected ${show(want)}`
  if (!validate(got) || !isDeepStrictEqual(got, want)) return 'not the same when validated again'
}

// Two documents, one after the other; what is done to the first doesn't matter.
function history (validate, [first, second]) {
  const a = structuredClone(first)
  if (!validate(a)) return 'rejected'
  const change = (v) => {
    if (Array.isArray(v)) {
      v.forEach(change)
      v.push('changed')
    } else if (isObj(v)) {
      Object.values(v).forEach(change)
      v.changed = true
    }
  }
  change(a)
  return check(validate, second)
}

// The program, for one document or array of inlines.
function program (dir, n, input) {
  const want = []
  for (const flags of [[], ['--out'], ['--validate-schema']]) want.push(flags)
  let model = structuredClone(input)
  if (Array.isArray(input)) {
    model = doc({ name: 'paragraph', type: 'block', inlines: input })
    if (input.length) {
      model.location = [input[0].location[0], input.at(-1).location[1]]
      model.blocks[0].location = model.location
    }
  }
  const done = document(model)
  const file = path.join(dir, `input-${n}.json`)
  fs.writeFileSync(file, JSON.stringify(input))
  return Promise.all(want.map((flags) => new Promise((resolve) => {
    execFile(process.execPath, ['bin/validate-asg.js', ...flags, file], { cwd: dir }, (err, out, errors) => {
      const problem = (m) => resolve(`validate-asg ${flags.join(' ')}: ${m}; stdout ${JSON.stringify(out)}, stderr ${JSON.stringify(errors)}`)
      if (err) return problem('failed')
      if (done) {
        // (It doesn't matter how what it writes is laid out.)
        const squeeze = (s) => s.replace(/\s+/g, '')
        const expected = flags[0] === '--out' ? show(done) : ''
        if (squeeze(out) !== squeeze(expected)) {
          // Properties may come in any order.
          let same = false
          try {
            same = flags[0] === '--out' && isDeepStrictEqual(new Function(`return (${out})`)(), done)
          } catch {}
          if (!same) return problem(`wrote something else than ${JSON.stringify(expected)}`)
        }
      } else if (!out.startsWith(file + '\n') || !out.includes('instancePath')) {
        return problem('did not report the document that is not well formed')
      }
      resolve()
    })
  })))
}

const located = (n, line) => ({ ...n, location: [{ line, col: 1 }, { line, col: 9 }] })

async function main () {
  // The program finds its modules and schema.json from where it is.
  const dir = fs.mkdtempSync(path.join(os.tmpdir(), 'asg-'))
  process.on('exit', () => fs.rmSync(dir, { recursive: true, force: true }))
  for (const f of ['bin', 'lib', 'schema.js', 'schema.json', 'package.json']) fs.cpSync(path.join(ASG, f), path.join(dir, f), { recursive: true })
  fs.mkdirSync(path.join(dir, 'node_modules'))
  fs.symlinkSync(path.join(MODULES, 'ajv'), path.join(dir, 'node_modules', 'ajv'))
  let fail = (kind, input, what) => {
    const replay = path.join(HOME, 'replays', `${ID}-${Date.now().toString(36)}.json`)
    fs.mkdirSync(path.dirname(replay), { recursive: true })
    fs.writeFileSync(replay, JSON.stringify({ property: ID, kind, input, what }, null, 1))
    console.log(`${kind}: ${JSON.stringify(input)}\n${what}`)
    console.log(`VIOLATION property=${ID} replay=${replay}`)
    process.exit(1)
  }
  let validate
  try {
    validate = await implementation(dir)
  } catch (e) {
    fail('schema', null, `the schema can't be used: ${e.message}`)
  }
  if (process.argv[2] === 'replay') {
    const r = JSON.parse(fs.readFileSync(process.argv[3]))
    const what = r.kind === 'schema' ? BAD : r.kind === 'program' ? (await program(dir, 0, r.input)).find(Boolean) : r.kind === 'history' ? history(validate, r.input) : check(validate, r.input)
    if (what) {
      console.log(what)
      console.log(`VIOLATION property=${ID} replay=${process.argv[3]}`)
      process.exit(1)
    }
    return console.log('holds')
  }

  let cases = 0
  let runs = 0
  let accepted = 0
  const outcomes = new Set()
  const samples = []
  const bounds = {}
  for (const [name, space] of spaces) {
    const before = cases
    for (const input of space()) {
      cases++
      let what
      try {
        what = check(validate, input)
      } catch (e) {
        what = `threw ${e.message}`
      }
      if (what) fail(name, input, what)
      if (cases - before === 1 || cases % 100_000 === 0) samples.push({ space: name, index: cases - before - 1, document: input })
      const d = document(input)
      runs++
      if (d) {
        runs++
        accepted++
        outcomes.add(JSON.stringify(d))
      }
    }
    bounds[name] = cases - before
  }
  // Histories
  const whole = [...MINIMAL.map(([name, n], i) => KINDS[i][3](n)), ...KINDS.map((k) => k[3](k[1])), { name: 'document', type: 'block' }, doc({ ...para(), metadata: {} })].filter((d) => document(d))
  const before = cases
  for (const a of whole) {
    for (const b of whole) {
      cases++
      runs += 3
      const what = history(validate, [a, b])
      if (what) fail('history', [a, b], what)
    }
  }
  bounds['histories of two documents'] = cases - before
  // The program
  const inputs = [
    ...KINDS.map((k) => k[3](k[1])),
    ...KINDS.filter((k) => k[2].length).map((k) => k[3](without(k[1], k[2].at(-1)))),
    ...KINDS.map((k) => k[3]({ ...k[1], unknown: 1 })),
    [],
    [located(T(), 1)],
    [located(T('a'), 1), located(T('b'), 2)],
    [located(T('a'), 1), located({ ...NODES.span, inlines: [located(T(), 2)] }, 2), located(NODES.ref, 3)],
    [located(T('a'), 1), located(NODES.paragraph, 2)],
    [located({ ...T(), value: 1 }, 1)],
    { name: 'document', type: 'block' },
    {},
  ]
  const todo = inputs.map((input, n) => [n, input])
  let problem
  await Promise.all(Array.from({ length: os.availableParallelism() }, async () => {
    for (let next; !problem && (next = todo.shift());) {
      cases++
      runs += 3
      const what = (await program(dir, ...next)).find(Boolean)
      if (what) problem ??= [next[1], what]
    }
  }))
  if (problem) fail('program', ...problem)
  bounds['runs of validate-asg'] = inputs.length

  const evidence = {
    property: ID,
    tier: thorough ? 'thorough' : 'quick',
    seed: Number(process.env.VERIF_SEED ?? 1),
    level: 'model_checking',
    coverage: {
      states: outcomes.size,
      transitions: steps,
      traces_validated_against_impl: runs,
      cases,
      accepted,
      exhaustive: true,
      rule: 'every document of every space is validated by the schema and by an independent recogniser; states: distinct completed documents; transitions: nodes visited by the recogniser',
      spaces: bounds,
      samples: samples.slice(0, 20),
    },
    assumptions: ['Ajv implements JSON Schema 2020-12', 'the recogniser states what the definitions of the ASG (draft 01) say'],
    wall_s: (Date.now() - started) / 1000,
  }
  fs.mkdirSync(path.join(HOME, 'evidence'), { recursive: true })
  fs.writeFileSync(path.join(HOME, 'evidence', `${ID}.json`), JSON.stringify(evidence, null, 1) + '\n')
  console.log(`${ID}: ${cases} cases, ${outcomes.size} states, ${steps} transitions, ${runs} executions, ${evidence.wall_s.toFixed(1)} s`)
}

await main()
