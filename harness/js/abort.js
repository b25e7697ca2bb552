// Stand-in for the runtime's AbortController: the first abort counts.
globalThis.AbortController = class {
  constructor() { this.signal = { aborted: false, reason: undefined }; }
  abort(reason) {
    if (this.signal.aborted) return;
    this.signal.aborted = true;
    this.signal.reason = reason;
  }
};
