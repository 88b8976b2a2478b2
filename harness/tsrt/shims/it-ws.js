// Stand-in for @aptre/it-ws/duplex: the socket is its own duplex.
export default function duplex(socket) { return { source: socket.source, sink: socket.sink } }
