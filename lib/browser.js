// A browser without a screen: stubs for the page and the chart library, the repository's own scripts, a real WebSocket.
// usage: node browser.js <spec.json>; prints what the page shows as one JSON line
"use strict";
const fs = require("fs"), vm = require("vm");
const spec = JSON.parse(fs.readFileSync(process.argv[2], "utf8"));
const charts = [], inputs = {}, log = [];
const doc = {};
let said = false;
function say(x) {
    if (said) return;
    said = true;
    process.stdout.write(JSON.stringify(x) + "\n", () => process.exit(0));
}
function element(id) {
    return doc[id] || (doc[id] = {id: id, innerText: "", firstElementChild: {innerText: ""}, onclick: null});
}
global.document = {getElementById: element, createElement: () => ({click() {}})};
global.window = {location: {protocol: "http:"}};
global.location = {host: "127.0.0.1:" + spec.port};
global.port = spec.port;
global.control_errors = [];
global.$ = function (sel) {
    const name = typeof sel === "string" ? sel : "";
    const key = name[0] === "#" ? name.slice(1) : name;
    const o = {
        0: {getContext: () => ({})}, length: 1,
        slider() { return o; }, tooltip() { return o; }, append() { return o; }, html() { return o; }, bootstrapSwitch(x) {
            (inputs[key] = inputs[key] || {}).change = v => x.onSwitchChange({}, v); return o; },
        on(ev, fn) { (inputs[key] = inputs[key] || {})[ev] = fn; return o; },
        val(v) { const i = inputs[key] = inputs[key] || {}; if (v !== undefined) { i.value = v; return o; }
            return i.value === undefined ? undefined : String(i.value); },   // what a field of a page holds is text
    };
    if (name === "") { o.val = function (v) { const i = inputs[sel.key]; return i && String(i.value); }; }
    return o;
};
global.Chart = function (context, config) {
    config.data.labels = config.data.labels || [];   // as the library does
    this.config = config; this.data = config.data; this.options = config.options; this.updates = 0;
    this.update = () => { this.updates++; };
    this.toBase64Image = () => "";
    charts.push(this);
};
const RealWS = WebSocket;
let socket = null, received = [];
const sentAt = [];
global.WebSocket = class {
    constructor(url) {
        socket = this;
        this.real = new RealWS(url);
        const deliver = m => {
            const msg = JSON.parse(m.data);
            received.push(msg.type);
            if (this.onmessage) this.onmessage({data: m.data});
        };
        const queue = [];   // messages arrive late, but in order
        this.real.onmessage = m => {
            if (!spec.latency) return deliver(m);
            queue.push(m);
            setTimeout(() => deliver(queue.shift()), spec.latency);
        };
        this.real.onerror = e => { say({error: "socket: " + (e.message || e.type)}); };
    }
    send(text) { log.push(JSON.parse(text)); sentAt.push(performance.now()); this.real.send(text); }
};
function run(code, name) { vm.runInThisContext(code, {filename: name}); }
for (const f of spec.scripts) run(fs.readFileSync(f, "utf8"), f);
for (const c of spec.js_code) run(c, "element");
const deadline = Date.now() + spec.timeout * 1000;
function until(cond) {
    return new Promise((ok, bad) => {
        const look = () => {
            if (cond()) ok();
            else if (Date.now() > deadline) bad(new Error("the page waits for an answer in vain"));
            else setTimeout(look, 5);
        };
        look();
    });
}
const value = e => vm.runInThisContext(e);
function snapshot() {
    return {
        tick: value("controller.tick"), shown: String(element("currentStep").innerText), running: value("controller.running"),
        finished: value("controller.finished"), button: element("play-pause").firstElementChild.innerText,
        charts: charts.map(c => ({labels: c.data.labels ? c.data.labels.slice() : null,
                                  data: c.data.datasets.map(d => ({data: d.data.slice(), keys: d.keys ? d.keys.slice() : null})).filter(d => d.data.length),
                                  all: c.data.datasets.length, tips: tips(c)})),
        received: received.length, sent: log.length,
    };
}
/** What is shown for a place that the mouse points to: title and text */
function tips(c) {
    const calls = c.options.tooltips && c.options.tooltips.callbacks;
    if (!calls || !calls.label || !calls.title) return null;
    const labels = c.data.labels || [], out = [];
    c.data.datasets.forEach((d, j) => d.data.forEach((y, i) => {
        if (i < d.data.length - 3 && i % 7 !== 3 && typeof y !== "object") return;
        const point = y !== null && typeof y === "object";
        const item = {datasetIndex: j, index: i, xLabel: point ? y.x : labels[i], yLabel: point ? y.y : y};
        out.push({dataset: j, index: i, title: String(calls.title([item], c.data)), text: String(calls.label(item, c.data))});
    }));
    return out;
}
const pause = ms => new Promise(ok => setTimeout(ok, ms));
function speed(fps) { inputs.fps.value = fps; inputs.fps.change.call({key: "fps"}); }
const steps = () => log.filter(x => x.type === "get_step").length;
const answers = () => received.filter(t => t !== "model_params").length;
const requests = () => log.filter(x => x.type === "get_step" || x.type === "reset").length;
/** Wait until everything that was sent has been answered and nothing more is sent */
async function rest(ms) {
    await until(() => answers() >= requests());
    await pause(ms);
    await until(() => answers() >= requests());
}
(async () => {
    const out = [];
    await until(() => received.includes("model_params") && received.includes("viz_state"));
    for (const a of spec.actions) {
        const n = received.length, extra = {};
        if (a.do === "step") {
            const was = value("controller.finished");
            element("step").onclick();
            if (!was) await until(() => received.length > n);
        } else if (a.do === "reset") {
            element("reset").onclick();
            await until(() => received.slice(n).includes("viz_state"));
        } else if (a.do === "step-reset") {    // a reset while the answer to a step is on its way
            element("step").onclick();
            element("reset").onclick();
            await rest(60);
        } else if (a.do === "play") {
            speed(1000);
            const was = value("controller.finished");
            element("play-pause").onclick();
            if (!was) {
                await until(() => received.length >= n + a.count || value("controller.finished"));
                if (!value("controller.finished")) {
                    element("play-pause").onclick();   // stop
                    const sent = log.length;
                    await rest(60);
                    extra.after_stop = log.length - sent;
                }
            }
        } else if (a.do === "play-reset" || a.do === "stop-start") {
            // something happens while the model runs slowly: then it still does no more than one step per interval
            speed(a.fps);
            element("play-pause").onclick();
            if (value("controller.running")) {
                await until(() => received.length > n || value("controller.finished"));
                await pause(a.delay);
            }
            const going = value("controller.running"), sent = log.length;
            if (a.do === "play-reset") element("reset").onclick();
            else if (going) { element("play-pause").onclick(); element("play-pause").onclick(); }
            if (going) {
                const t = performance.now(), had = log.length;
                await until(() => log.length >= had + 4 || value("controller.finished") || performance.now() > t + 20000);
                extra.interval = 1000 / a.fps;
                extra.times = sentAt.slice(sent).map(x => x - sentAt[sent]);
                extra.kinds = log.slice(sent).map(x => x.type);
                if (!value("controller.finished")) {
                    element("play-pause").onclick();
                    const sent = log.length;
                    await rest(1500 / a.fps);
                    extra.after_stop = log.length - sent;
                }
            }
            await rest(20);
        } else if (a.do === "set") {
            const i = inputs[a.param + "_id"];
            if (a.choice !== undefined) inputs[a.param + "_id_choice_" + a.choice].click.call({key: a.param + "_id"});
            else if (typeof a.value === "boolean") i.change(a.value);
            else {
                i.value = a.value;
                // handlers read the value of "this"
                i.change.call({key: a.param + "_id"});
            }
            await pause(30);
        }
        out.push({action: a, after: snapshot(), extra: extra});
    }
    say({steps: out, received: received, sent: log, inputs: Object.keys(inputs)});
})().catch(e => { say({error: String(e.message), received: received, sent: log}); });
