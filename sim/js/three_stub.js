// A stand-in for the parts of three.js used by marxs output.  Loads the real MARXSloader.js and
// ModifiedTorusBufferGeometry.js, feeds them the exported data and reports vertices in global coordinates.
'use strict';
const fs = require('fs'), vm = require('vm'), path = require('path');
const dir = process.argv[2];
const jobs = JSON.parse(fs.readFileSync(0, 'utf8'));

function Matrix4() { this.elements = [1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1]; }
Matrix4.prototype.set = function () {   // row-major arguments, column-major storage as in three.js
    if (arguments.length !== 16) { throw new Error('Matrix4.set needs 16 numbers'); }
    for (let i = 0; i < 4; i++) { for (let j = 0; j < 4; j++) { this.elements[4 * j + i] = arguments[4 * i + j]; } }
};
function Vector3() { this.x = 0; this.y = 0; this.z = 0; }
Vector3.prototype.subVectors = function (a, b) { this.x = a.x - b.x; this.y = a.y - b.y; this.z = a.z - b.z; return this; };
Vector3.prototype.normalize = function () { return this; };
function BufferGeometry() { this.attributes = {}; this.index = null; }
BufferGeometry.prototype.addAttribute = function (n, a) { this.attributes[n] = a; };
BufferGeometry.prototype.setIndex = function (a) { this.index = a; };
BufferGeometry.prototype.computeBoundingSphere = function () {};
function BufferAttribute(array, itemSize) { this.array = array; this.itemSize = itemSize; }
function BoxGeometry(w, h, d) {
    BufferGeometry.call(this);
    const v = [];
    for (const x of [-w / 2, w / 2]) { for (const y of [-h / 2, h / 2]) { for (const z of [-d / 2, d / 2]) { v.push(x, y, z); } } }
    this.type = 'BoxGeometry';
    this.attributes.position = new BufferAttribute(v, 3);
}
BoxGeometry.prototype = Object.create(BufferGeometry.prototype);
function material(p) { this.properties = p || {}; }
function Mesh(g, m) { this.geometry = g; this.material = m; this.matrix = new Matrix4(); this.type = 'Mesh'; }
function Line(g, m) { this.geometry = g; this.material = m; this.matrix = new Matrix4(); this.type = 'Line'; }

function fresh() {
    const THREE = { Matrix4, Vector3, BufferGeometry, BufferAttribute, BoxGeometry, Mesh, Line, DefaultLoadingManager: {}, DoubleSide: 2,
        MeshStandardMaterial: material, LineBasicMaterial: material, VertexColors: 2, Float32BufferAttribute: BufferAttribute };
    const ctx = vm.createContext({ THREE, Math, console });
    vm.runInContext(fs.readFileSync(path.join(dir, 'ModifiedTorusBufferGeometry.js'), 'utf8'), ctx);
    vm.runInContext(fs.readFileSync(path.join(dir, 'MARXSloader.js'), 'utf8'), ctx);
    return ctx;
}
function world(o) {
    const a = Array.from(o.geometry.attributes.position.array), e = Array.from(o.matrix.elements), out = [];
    for (let i = 0; i + 2 < a.length; i += 3) {
        const p = [a[i], a[i + 1], a[i + 2]], q = [];
        for (let r = 0; r < 3; r++) { q.push(e[r] * p[0] + e[4 + r] * p[1] + e[8 + r] * p[2] + e[12 + r]); }
        out.push(q);
    }
    const c = o.geometry.attributes.color;
    return { type: o.type, geometry: o.geometry.type || 'buffer', points: out, left: a.length % 3,
        index: o.geometry.index ? Array.from(o.geometry.index.array) : null, color: c ? Array.from(c.array) : null, name: String(o.name) };
}
const result = jobs.map(function (job) {
    try {
        const ctx = fresh();
        let objs = [];
        if (job.kind === 'json') {
            ctx.job = job.data;
            const r = vm.runInContext('(new THREE.MARXSLoader()).parse(JSON.parse(job))', ctx);
            for (const m of r.objects) { objs = objs.concat(m); }
        } else {
            ctx.scene = { add: function (o) { objs.push(o); } };
            vm.runInContext(job.data, ctx);
        }
        return { ok: objs.map(world) };
    } catch (e) {
        return { error: String(e && e.stack || e).slice(0, 600) };
    }
});
process.stdout.write(JSON.stringify(result));
