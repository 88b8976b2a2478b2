import { calls, echo } from './calls.js'
import { framing, server, client } from './raw.js'
import { duplex } from './duplex.js'
import { channel } from './channel.js'

import { rpcstream, rpcpackets } from './rpcstream.js'

import { gen } from './gen.js'
import { mux, ctr, watchdog, pushing, errors } from './parts.js'

export const kinds = { calls, echo, framing, server, client, channel, duplex, rpcstream, rpcpackets, mux, ctr, watchdog, pushing, errors, gen }
