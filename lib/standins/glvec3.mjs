// gl-matrix vec3, as documented: 32-bit floats, the result goes in the first argument.
export const create = () => new Float32Array(3);
export const fromValues = (x, y, z) => new Float32Array([x, y, z]);
export const clone = a => new Float32Array([a[0], a[1], a[2]]);
export const set = (o, x, y, z) => { o[0] = x; o[1] = y; o[2] = z; return o; };
export const copy = (o, a) => set(o, a[0], a[1], a[2]);
export const add = (o, a, b) => set(o, a[0] + b[0], a[1] + b[1], a[2] + b[2]);
export const sub = (o, a, b) => set(o, a[0] - b[0], a[1] - b[1], a[2] - b[2]);
export const subtract = sub;
export const scale = (o, a, b) => set(o, a[0] * b, a[1] * b, a[2] * b);
export const scaleAndAdd = (o, a, b, s) => set(o, a[0] + b[0] * s, a[1] + b[1] * s, a[2] + b[2] * s);
export const negate = (o, a) => set(o, -a[0], -a[1], -a[2]);
export const dot = (a, b) => a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
export const cross = (o, a, b) => set(o, a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]);
export const length = a => Math.sqrt(dot(a, a));
export const len = length;
export const squaredLength = a => dot(a, a);
export const normalize = (o, a) => { const l = dot(a, a); return scale(o, a, l > 0 ? 1 / Math.sqrt(l) : l); };
export const transformMat4 = (o, a, m) => {
    const w = (m[3] * a[0] + m[7] * a[1] + m[11] * a[2] + m[15]) || 1.0;
    return set(o, (m[0] * a[0] + m[4] * a[1] + m[8] * a[2] + m[12]) / w, (m[1] * a[0] + m[5] * a[1] + m[9] * a[2] + m[13]) / w, (m[2] * a[0] + m[6] * a[1] + m[10] * a[2] + m[14]) / w);
};
