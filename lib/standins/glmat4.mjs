// gl-matrix mat4, as documented: column-major 32-bit floats.
export const EPSILON = 0.000001;
export const identity = o => { o.fill(0); o[0] = o[5] = o[10] = o[15] = 1; return o; };
export const create = () => identity(new Float32Array(16));
export const clone = a => new Float32Array(a);
export const copy = (o, a) => { for (let i = 0; i < 16; i++) o[i] = a[i]; return o; };
export const multiply = (o, a, b) => {
    const r = new Float64Array(16);
    for (let c = 0; c < 4; c++) for (let i = 0; i < 4; i++) for (let k = 0; k < 4; k++) r[4 * c + i] += a[4 * k + i] * b[4 * c + k];
    return copy(o, r);
};
export const mul = multiply;
export const scale = (o, a, v) => { for (let i = 0; i < 16; i++) o[i] = i < 12 ? a[i] * v[i >> 2] : a[i]; return o; };
export const translate = (o, a, v) => multiply(o, a, fromTranslation(create(), v));
export const fromTranslation = (o, v) => { identity(o); o[12] = v[0]; o[13] = v[1]; o[14] = v[2]; return o; };
export const fromScaling = (o, v) => { identity(o); o[0] = v[0]; o[5] = v[1]; o[10] = v[2]; return o; };
export const transpose = (o, a) => { const r = new Float32Array(a); for (let i = 0; i < 4; i++) for (let j = 0; j < 4; j++) o[4 * i + j] = r[4 * j + i]; return o; };
export const fromRotation = (o, rad, axis) => {
    let [x, y, z] = axis;
    let l = Math.sqrt(x * x + y * y + z * z);
    if (l < EPSILON) return null;
    l = 1 / l; x *= l; y *= l; z *= l;
    const s = Math.sin(rad), c = Math.cos(rad), t = 1 - c;
    o[0] = x * x * t + c; o[1] = y * x * t + z * s; o[2] = z * x * t - y * s; o[3] = 0;
    o[4] = x * y * t - z * s; o[5] = y * y * t + c; o[6] = z * y * t + x * s; o[7] = 0;
    o[8] = x * z * t + y * s; o[9] = y * z * t - x * s; o[10] = z * z * t + c; o[11] = 0;
    o[12] = 0; o[13] = 0; o[14] = 0; o[15] = 1;
    return o;
};
export const rotate = (o, a, rad, axis) => { const r = fromRotation(create(), rad, axis); return r === null ? null : multiply(o, a, r); };
