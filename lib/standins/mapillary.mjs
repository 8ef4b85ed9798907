// What the viewer takes from mapillary-js.
const A = 6378137.0, B = 6356752.31424518, E2 = 1 - B * B / (A * A), E2P = A * A / (B * B) - 1;
export function geodeticToEcef(lng, lat, alt) {
    lng *= Math.PI / 180; lat *= Math.PI / 180;
    const N = A / Math.sqrt(1 - E2 * Math.sin(lat) ** 2);
    return [(N + alt) * Math.cos(lat) * Math.cos(lng), (N + alt) * Math.cos(lat) * Math.sin(lng), ((1 - E2) * N + alt) * Math.sin(lat)];
}
export function ecefToGeodetic(X, Y, Z) {
    const p = Math.hypot(X, Y);
    let lat = Math.atan2(Z, p * (1 - E2)), N = A, alt = 0;
    for (let i = 0; i < 30; i++) {
        N = A / Math.sqrt(1 - E2 * Math.sin(lat) ** 2);
        lat = Math.atan2(Z + E2 * N * Math.sin(lat), p);
    }
    N = A / Math.sqrt(1 - E2 * Math.sin(lat) ** 2);
    alt = p * Math.cos(lat) + Z * Math.sin(lat) - A * A / N;
    return [Math.atan2(Y, X) * 180 / Math.PI, lat * 180 / Math.PI, alt];
}
export function enuToGeodetic(x, y, z, refLng, refLat, refAlt) {
    const lo = refLng * Math.PI / 180, la = refLat * Math.PI / 180, r = geodeticToEcef(refLng, refLat, refAlt);
    return ecefToGeodetic(
        r[0] - Math.sin(lo) * x - Math.sin(la) * Math.cos(lo) * y + Math.cos(la) * Math.cos(lo) * z,
        r[1] + Math.cos(lo) * x - Math.sin(la) * Math.sin(lo) * y + Math.cos(la) * Math.sin(lo) * z,
        r[2] + Math.cos(la) * y + Math.sin(la) * z);
}
let buffers = {};
export const setBuffers = b => { buffers = b; };
export const fetchArrayBuffer = async url => {
    if (url in buffers) return new Uint8Array(buffers[url]).buffer;
    throw new Error("cannot fetch " + url);
};
export class DataProviderBase {
    constructor(geometry) { this._geometry = geometry; this._callbacks = {}; }
    get geometry() { return this._geometry; }
    on(type, f) { (this._callbacks[type] ??= []).push(f); }
    off(type, f) { this._callbacks[type] = (this._callbacks[type] ?? []).filter(g => g !== f); }
    fire(type, event) { for (const f of this._callbacks[type] ?? []) f(event); }
}
export class S2GeometryProvider {
    constructor(level) { this.level = level; }
    lngLatToCellId({lng, lat}) { return Math.floor(lng * 4000) + "/" + Math.floor(lat * 4000); }
}
