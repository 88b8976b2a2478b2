// Real time, in place of clock.js.
export const time = () => 0
export const sleep = (ms) => new Promise((resolve) => setTimeout(resolve, ms))
