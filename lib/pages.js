// Runs the scripts of web pages with a stand-in for the browser, driven by
// one JSON command per line on stdin; answers with one JSON line each.
"use strict";
const vm = require("vm");
const readline = require("readline");
const pages = {};

class Select {
    constructor(listbox) {
        const self = this;
        this.items = [];
        this.index = -1;
        this.listbox = listbox;
        this.handlers = {};
        this.offsetWidth = 37;
        this.options = new Proxy({}, {
            get(_, k) {
                if (k === "length") return self.items.length;
                if (k === "selectedIndex") return self.index;
                if (k === "add") return o => self.insert(o);
                if (k === Symbol.iterator) return () => self.items[Symbol.iterator]();
                return self.items[k];
            },
            set(_, k, v) { if (k === "selectedIndex") self.index = v; return true; },
        });
    }
    insert(o) {
        this.items.push(o);
        if (!this.listbox && this.index == -1) this.index = 0;
    }
    add(o) { this.insert(o); }
    remove(i) {
        this.items.splice(i, 1);
        if (this.index == i) this.index = !this.listbox && this.items.length ? 0 : -1;
        else if (this.index > i) this.index -= 1;
    }
    get length() { return this.items.length; }
    get selectedIndex() { return this.index; }
    set selectedIndex(v) { this.index = v; }
    get value() { return this.index == -1 ? "" : this.items[this.index].value; }
    set value(v) { this.index = this.items.findIndex(o => o.value === String(v)); }
    addEventListener(n, f) { (this.handlers[n] = this.handlers[n] || []).push(f); }
}

class Option {
    constructor() { this.style = {}; this.v = ""; this.t = ""; }
    set value(v) { this.v = String(v); }
    get value() { return this.v; }
    set text(v) { this.t = String(v); }
    get text() { return this.t; }
}

function open(cmd) {
    const P = { posts: [], requests: [], drawn: [], texts: [], sources: [], elements: {}, handlers: {}, image: null, errors: [] };
    const win = {
        location: { href: cmd.href },
        innerWidth: cmd.width, innerHeight: cmd.height,
        addEventListener(n, f) { (P.handlers[n] = P.handlers[n] || []).push(f); },
    };
    const canvas = {
        width: 300, height: 150, handlers: {},
        addEventListener(n, f) { (this.handlers[n] = this.handlers[n] || []).push(f); },
        getBoundingClientRect() { return { left: cmd.left, top: cmd.top }; },
        getContext() { return ctx; },
    };
    const ctx = {
        canvas,
        beginPath() {}, stroke() {}, fill() {},
        arc(x, y, r) { P.drawn.push([x, y, r, ctx]); P.last = P.drawn.length - 1; },
        fillRect() { P.drawn = []; P.texts = []; P.shown = null; },
        drawImage(im, x, y, w, h) { P.shown = [im.url, x, y, w, h]; },
        measureText(t) { return { width: 10 * String(t).length }; },
        fillText(t, x, y) { P.texts.push([String(t), x, y]); },
    };
    class Image {
        constructor() { this.width = 0; this.height = 0; P.image = this; }
        set src(u) { this.url = u; P.requests.push(u); }
        get src() { return this.url; }
    }
    class XHR {
        open(m, u) { this.u = u; }
        send() { this.responseURL = this.u; if (this.onload) this.onload(); }
    }
    class EventSource {
        constructor(u) { this.url = u; this.handlers = {}; P.sources.push(this); }
        addEventListener(n, f) { (this.handlers[n] = this.handlers[n] || []).push(f); }
        close() {}
    }
    EventSource.CONNECTING = 0;
    const document = {
        getElementById(id) {
            if (!(id in cmd.elements)) return null;
            if (!(id in P.elements)) {
                const kind = cmd.elements[id];
                P.elements[id] = kind == "listbox" || kind == "dropdown" ? new Select(kind == "listbox") : kind == "canvas" ? canvas : { style: {} };
            }
            return P.elements[id];
        },
        createElement() { return new Option(); },
    };
    P.context = vm.createContext({
        window: win, document, Image, XMLHttpRequest: XHR, EventSource, JSON, Math, Object, Set, Map,
        console: { log() {} },
        fetch(url, init) { P.posts.push([url, init.method, init.headers, init.body]); return Promise.resolve({}); },
    });
    P.canvas = canvas;
    pages[cmd.page] = P;
    for (const s of cmd.scripts) vm.runInContext(s, P.context);
    for (const n of ["DOMContentLoaded", "load"]) for (const f of P.handlers[n] || []) f({});
}

const actions = {
    open,
    event(P, c) {
        for (const s of P.sources) for (const f of s.handlers[c.type] || []) f({ data: c.data });
    },
    click(P, c) { P.elements[c.id].onclick({}); },
    select(P, c) {
        const s = P.elements[c.id];
        s.index = c.index;
        for (const f of s.handlers.change || []) f({});
    },
    loaded(P, c) { P.image.width = c.width; P.image.height = c.height; P.image.onload(); },
    mouse(P, c) { for (const f of P.canvas.handlers.mousedown || []) f({ x: c.x, y: c.y, button: c.button }); },
    wheel(P, c) { for (const f of P.canvas.handlers.mousewheel || []) f({ deltaY: c.delta }); },
};

readline.createInterface({ input: process.stdin }).on("line", line => {
    const c = JSON.parse(line);
    if (c.cmd == "reset") {
        for (const k of Object.keys(pages)) delete pages[k];
        console.log("{}");
        return;
    }
    let error = null;
    try {
        c.cmd == "open" ? open(c) : actions[c.cmd](pages[c.page], c);
    } catch (e) { error = String(e && e.stack || e).slice(0, 400); }
    const P = pages[c.page];
    const out = { error, posts: P.posts, requests: P.requests, drawn: P.drawn.map(d => d.slice(0, 3)), texts: P.texts, shown: P.shown || null, sources: P.sources.map(s => s.url), boxes: {}, canvas: [P.canvas.width, P.canvas.height] };
    for (const [k, e] of Object.entries(P.elements)) {
        if (e instanceof Select) out.boxes[k] = { values: e.items.map(o => o.value), texts: e.items.map(o => o.text), index: e.index };
    }
    P.posts = [];
    P.requests = [];
    console.log(JSON.stringify(out));
});
