// Runs the modules of the web viewer that read reconstructions, with
// stand-ins for the browser and for the two libraries they import
// (gl-matrix and mapillary-js, which are not in the repository), driven by one
// JSON command per line on stdin; answers with one JSON line each.
import module from "node:module";
import readline from "node:readline";
import path from "node:path";
import {pathToFileURL, fileURLToPath} from "node:url";

const here = path.dirname(fileURLToPath(import.meta.url));
const root = process.argv[2];
const standins = {vec3: "glvec3.mjs", mat4: "glmat4.mjs", "mapillary.module": "mapillary.mjs"};

module.registerHooks({
    resolve(specifier, context, next) {
        const m = /node_modules\/(?:gl-matrix\/esm|mapillary-js\/dist)\/([\w.]+)\.js$/.exec(specifier);
        if (m && m[1] in standins) return {url: pathToFileURL(path.join(here, "standins", standins[m[1]])).href, format: "module", shortCircuit: true};
        return next(specifier, context);
    },
    load(url, context, next) {
        return next(url, url.startsWith("file:") ? {...context, format: "module"} : context);
    },
});

// ------------------------------------------------------------- the browser
class Element {
    constructor(tag) { this.tag = tag; this.children = []; this.handlers = {}; this.classes = new Set(); this.textContent = ""; this.attributes = {}; const c = this.classes; this.classList = {add: (...n) => n.forEach(x => c.add(x)), remove: (...n) => n.forEach(x => c.delete(x)), contains: n => c.has(n), toggle: n => c.has(n) ? c.delete(n) : c.add(n)}; this.style = {}; }
    appendChild(e) { if (!this.children.includes(e)) this.children.push(e); return e; }
    append(...e) { e.forEach(x => this.appendChild(x)); }
    removeChild(e) { const i = this.children.indexOf(e); if (i < 0) throw new Error("not a child"); this.children.splice(i, 1); return e; }
    contains(e) { return e === this || this.children.some(c => c.contains(e)); }
    addEventListener(t, h) { (this.handlers[t] ??= new Set()).add(h); }
    removeEventListener(t, h) { this.handlers[t]?.delete(h); }
    setAttribute(k, v) { this.attributes[k] = v; }
    removeAttribute(k) { delete this.attributes[k]; }
    get firstElementChild() { return this.children[0] ?? null; }
    get lastElementChild() { return this.children[this.children.length - 1] ?? null; }
    dispatch(t, e = {}) { for (const h of [...(this.handlers[t] ?? [])]) h(Object.assign({target: this, preventDefault() {}}, e)); }
    toBlob(cb) { setTimeout(() => cb({arrayBuffer: async () => new Uint8Array([9, 9, 9]).buffer}), 0); }
    text() { return [this.textContent, ...this.children.flatMap(c => c.text())]; }
}
let requests = [], answers = {};
const origin = "http://viewer.test:8080";
globalThis.document = Object.assign(new Element("document"), {body: new Element("body"), createElement: t => new Element(t)});
globalThis.window = {document: globalThis.document, location: {protocol: "http:", host: "viewer.test:8080", hash: ""}};
globalThis.fetch = (url, options) => {
    const href = new URL(String(url), origin + "/").href;
    requests.push(href);
    const a = answers[href] ?? {};
    return new Promise((resolve, reject) => setTimeout(() => {
        if (a.error) reject(new TypeError("network"));
        else resolve({ok: !a.missing && a.body !== undefined, status: !a.missing && a.body !== undefined ? 200 : 404, json: async () => JSON.parse(a.body), arrayBuffer: async () => new TextEncoder().encode(a.body).buffer});
    }, a.delay ?? 0));
};
const errors = [];
console.error = (...e) => errors.push(e.map(String).join(" "));
console.warn = () => {};
console.log = () => {};
process.on("unhandledRejection", e => errors.push("unhandled " + e));

const use = p => import(pathToFileURL(path.join(root, "viewer", "src", p)).href);
const [{OpensfmDataProvider}, {DataConverter}, ids, params, {FileSelecter}, {StatsControl}, M] = await Promise.all([
    use("provider/OpensfmDataProvider.js"), use("provider/DataConverter.js"), use("util/ids.js"), use("util/params.js"), use("ui/FileSelecter.js"), use("control/StatsControl.js"), import(pathToFileURL(path.join(here, "standins", "mapillary.mjs")).href)]);
const wait = ms => new Promise(r => setTimeout(r, ms));
const bytes = b => b === undefined || b === null ? null : [...new Uint8Array(b)];

const ops = {
    async provider(c) {
        requests = []; answers = c.answers ?? {}; errors.length = 0;
        M.setBuffers(c.buffers ?? {});
        const events = [], stats = [];
        const box = new StatsControl({provider: null, visible: true});
        const p = new OpensfmDataProvider({endpoint: origin, ...c.options});
        for (const t of ["load", "datacreate", "opensfmdatacreate"]) p.on(t, e => {
            events.push({type: t, cells: e.cellIds ?? null, clusters: e.data ? Object.keys(e.data.clusters) : null, target: e.target === p, loaded: p.loaded});
            if (t === "load") box.addRawData(p.rawData);
            if (t === "opensfmdatacreate") box.addRawData(e.rawData);
        });
        const early = c.options.reconstructionPaths ? p.getCoreImages("none").then(r => ({r, n: Object.keys(p.data.images).length}), e => ({error: String(e.message)})) : null;
        const state = [{loaded: p.loaded, loading: p.loading}];
        if (c.options.reconstructionPaths) await wait(c.settle ?? 20);
        const outcomes = [];
        for (const [op, text, invent] of c.actions ?? []) {
            const before = events.length;
            const file = JSON.parse(text);
            const kept = JSON.stringify([Object.keys(p.data.images).sort(), Object.keys(p.data.clusters).sort()]);
            let r;
            try { await p[op](file, invent); r = {done: true}; } catch (e) { r = {error: String(e.message), kept: kept === JSON.stringify([Object.keys(p.data.images).sort(), Object.keys(p.data.clusters).sort()])}; }
            outcomes.push({...r, events: events.slice(before)});
        }
        state.push({loaded: p.loaded, loading: p.loading});
        const cells = {};
        for (const k of Object.keys(p.data.cells)) cells[k] = await p.getCoreImages(k);
        const names = Object.keys(p.data.images);
        const some = names.filter((_, i) => i % 2 == 0);
        const images = await p.getImages(some), spatial = await p.getSpatialImages(names);
        const clusters = {}, meshes = {}, sequences = {}, buffers = {};
        for (const k of Object.keys(p.data.clusters)) clusters[k] = await p.getCluster(k);
        for (const k of names) {
            meshes[k] = await p.getMesh(p.data.images[k].mesh.url);
            sequences[k] = await p.getSequence(p.data.images[k].sequence.id);
            buffers[k] = bytes(await p.getImageBuffer(p.data.images[k].thumb.url));
        }
        const raw = {};
        for (const [k, v] of Object.entries(p.rawData)) raw[k] = {id: v.id, file: v.file, shots: Object.keys(v.cluster.shots), cluster: v.cluster === undefined ? null : true};
        return {events, outcomes, state, cells, images, spatial, some, names, clusters, meshes, sequences, buffers, raw, requests, errors: [...errors], early: early && await early, unknown: await p.getCoreImages("nowhere"),
            back: names.map(k => [ids.uniqueIDToClusterID(k), ids.uniqueIDToImageID(k), ids.imageToUniqueID({clusterId: ids.uniqueIDToClusterID(k), id: ids.uniqueIDToImageID(k)})]), stats: box.container.text()};
    },
    async params(c) {
        Object.assign(globalThis.window.location, c.location ?? {});
        const p = params.parseHash(c.hash);
        return {params: p, options: params.createProviderOptions(p)};
    },
    async select(c) {
        requests = []; errors.length = 0;
        answers = {[origin + "/items"]: {body: c.items, delay: 0}};
        const s = new FileSelecter({itemsUrl: "items", classNames: ["x"]});
        s.show();
        const rounds = [];
        for (const picks of c.rounds) {
            const chosen = s.selectFiles();
            await wait(5);
            for (const [k, v] of Object.entries(c.bodies ?? {})) answers[k] = {body: v};
            const box = globalThis.document.body.children.find(e => e.classList.contains("opensfm-file-select"));
            const entries = box.children.filter(e => e.classList.contains("opensfm-file-select-item"));
            for (const i of picks) entries[i].dispatch("click");
            const marked = entries.map(e => e.classList.contains("opensfm-file-select-selected"));
            requests = [];
            box.children.find(e => e.classList.contains("opensfm-file-select-submit"))?.dispatch("click");
            const got = await Promise.allSettled(await chosen);
            rounds.push({listed: entries.map(e => e.textContent), marked, requests, files: got.map(g => g.status === "fulfilled" ? {name: g.value.name, data: g.value.data} : {error: String(g.reason)})});
        }
        const last = s.selectFiles();
        s.hide();
        const cancelled = await last.then(() => "resolved", e => e.name);
        return {rounds, cancelled, errors: [...errors]};
    },
};

for await (const line of readline.createInterface({input: process.stdin})) {
    const c = JSON.parse(line);
    let out;
    try { out = {ok: await ops[c.op](c)}; } catch (e) { out = {failed: String(e.stack ?? e)}; }
    process.stdout.write(JSON.stringify(out) + "\n");
}
