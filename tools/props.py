"""Source of properties.jsonl and MANIFEST.json.  Run: python3 tools/props.py"""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def P(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe:
        a['observe_at'] = list(observe)
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    a['hook_needed'] = None
    return {'id': id, 'title': title, 'statement': statement,
            'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a}


NOTEST = 'No existing test reaches this code; '
TM = 'sippy/SipTransactionManager.py'
PROPS = [
 P('T01', 'A retransmitted request reaches the application once and is answered the same',
   'Every received non-ACK request is handed to the application exactly once, however often and whenever identical '
   'copies of it arrive while its transaction exists or until at least 32 seconds after its last answer; distinct '
   'requests (differing in Call-ID, From tag, CSeq number or branch) are each delivered. Each retransmission '
   'is answered by re-sending, unchanged and to the same address, the last response already sent, and by nothing when '
   'none was sent. The same holds for answers to CANCEL and for automatically generated error answers.',
   ['schedules', 'inputs', 'histories'],
   'all request methods, header values, retransmission instants relative to every response and timer',
   NOTEST + 'the answer depends on the instant of the copy relative to cache rotation, timers and responses.',
   [TM], [('response cache by datagram digest, rotated every 32 s', TM + ':rCachePurge/transmitData'),
          ('match of server transactions', TM + ':incomingRequest')],
   ['application request callback', 'datagrams sent']),
 P('T02', 'A client transaction reports exactly one final outcome, on schedule',
   'For every request sent, the sender is told of each new provisional response and of exactly one final outcome: the '
   'first final response, or a locally generated 408 when nothing arrives within 32 seconds, counted anew from each '
   'new provisional response (for an INVITE, its Expires time is what counts after a provisional). A response that '
   'cannot be understood does not lose that outcome, and a response to anything else is never reported. Until the first response the request is retransmitted '
   'byte for byte to the same address after 0.5 s and then at doubling intervals; never after any response or after the '
   'outcome. When it is over, no timer and no transaction entry is left behind.',
   ['schedules', 'inputs', 'histories'],
   'all arrival instants, orders and duplicates of provisional and final responses, all Expires values',
   NOTEST + 'exactly-once outcomes depend on the race between every response and every timer.',
   [TM], [('timers A/B/C', TM + ':timerA/timerB/timerC'), ('response handling', TM + ':incomingResponse')],
   ['response callback', 'datagrams sent', 'pending timers']),
 P('T03', 'A final answer to INVITE is repeated until acknowledged, or given up after 32 s',
   'After a final response to INVITE the same bytes are re-sent to the same address at 0.5 s and then doubling intervals '
   'until an ACK for it arrives or 32 seconds have passed, and never later. An ACK is reported to the application at most '
   'once and only for the answer it acknowledges; without one the application is told exactly once, at 32 seconds. '
   'Afterwards no timer or transaction entry remains; final responses to other requests are never repeated by timer.',
   ['schedules', 'inputs', 'histories'],
   'all ACK arrival instants, final codes, duplicate and foreign ACKs, repeated INVITEs',
   NOTEST + 'requires all instants of the ACK relative to the retransmission timers.',
   [TM], [('timers A/D on the server side', TM + ':timerA/timerD/sendResponse'), ('ACK matching', TM + ':incomingRequest')],
   ['datagrams sent', 'ACK and no-ACK callbacks', 'pending timers']),
 P('T04', 'Every final response to an INVITE is acknowledged to the right place',
   'Each final response to a sent INVITE produces one ACK, and every identical repetition produces the same ACK again. '
   'It carries the INVITE\'s Call-ID, From, CSeq number and Max-Forwards and the response\'s To tag; for a non-2xx it also '
   'keeps the INVITE\'s request URI, top Via, Route set and destination. For a 2xx it has a new branch, is addressed to the Contact '
   'of the response, carries its Record-Route set reversed as Route headers, and is sent to the first loose hop (or to a '
   'strict first hop, which then becomes the request URI), else to the Contact.',
   ['inputs', 'histories'],
   'all final codes, Contact and Record-Route sets (loose and strict), tags and repetitions',
   NOTEST + 'the address of the ACK depends on every combination of route set and Contact.',
   [TM, 'sippy/SipRequest.py'], [('ACK construction', TM + ':incomingResponse'), ('ACK skeleton', 'sippy/SipRequest.py:genACK')],
   ['datagrams sent']),
 P('T05', 'Cancelling is correct on both sides',
   'A CANCEL asked for by the application is sent only after a provisional response to its INVITE has arrived, at most '
   'once (apart from its own retransmissions), not at all once a final response has come, and carries the INVITE\'s '
   'request URI, Call-ID, From, To, Via branch, CSeq number, Route set and destination plus the headers asked for. A '
   'received CANCEL that matches a pending INVITE is answered 200, the INVITE is answered 487 exactly once and the '
   'application is told exactly once; if the INVITE was already answered finally the CANCEL is still answered (200 or '
   '481) and nothing else happens, and an unmatched one is answered 481. An INVITE not answered finally within its '
   'Expires is ended the same way.',
   ['schedules', 'inputs', 'histories'],
   'all instants of cancellation relative to provisional and final responses, all methods and branches',
   NOTEST + 'the outcome depends on the race between the cancel, responses and timers.',
   [TM, 'sippy/SipRequest.py'], [('deferred cancel', TM + ':cancelTransaction/incomingResponse'),
    ('server side cancel', TM + ':doCancel/timerE'), ('CANCEL skeleton', 'sippy/SipRequest.py:genCANCEL')],
   ['datagrams sent', 'cancel callback']),
 P('T06', 'Responses follow the Via and mirror the request',
   'A response carries all Via headers of the request in order, its From, To, Call-ID, CSeq and Record-Route values, and '
   'is sent to the top Via\'s received address and rport when present, else to the Via host and port (5060 by default). '
   'The address a request really came from is recorded in its top Via whenever it differs from the Via host, and its '
   'port whenever rport was asked for. Any response of the application other than 100 has a To tag. '
   '(The automatic 400 to a broken request goes back to the address it came from instead.)',
   ['inputs'], 'all Via stacks, source addresses, ports and header values',
   NOTEST + 'the destination depends on every combination of Via host, port, received and rport.',
   [TM, 'sippy/SipVia.py', 'sippy/SipRequest.py'], [('received/rport stamping', TM + ':handleIncoming'),
     ('target address', 'sippy/SipVia.py:getTAddr'), ('response skeleton', 'sippy/SipRequest.py:genResponse')],
   ['datagrams sent', 'application request callback']),
 P('T07', 'Hostile or broken datagrams are contained',
   'Whatever bytes arrive in a datagram, processing them never lets an exception escape from the receiving server, never '
   'disturbs an unrelated ongoing transaction and never leaves timers or transaction entries behind for a message that was '
   'not accepted. A response that matches no request sent from here is never delivered to anyone. A request whose body '
   'is shorter than its declared length (by more than six octets: smaller differences may be repaired) is refused with '
   '400 and not delivered.',
   ['inputs', 'histories'], 'arbitrary and structured-mutated datagrams, with and without a transaction in progress',
   NOTEST + 'the input space is every byte string; tests sample none.',
   [TM, 'sippy/SipMsg.py', 'sippy/Udp_server.py', 'sippy/SipHeader.py'],
   [('parse guards', TM + ':handleIncoming'), ('body length', 'sippy/SipMsg.py:init_body'),
    ('receive guard', 'sippy/Udp_server.py:handle_read')],
   ['exceptions', 'datagrams sent', 'callbacks', 'timers']),
 P('M01', 'SIP URIs survive parsing and formatting',
   'Formatting a SIP URI and parsing the text back gives the same scheme, user, user parameters, password, host, port, '
   'parameters, headers and loose-routing flag; and parsing any accepted URI text and formatting it gives a text that '
   'parses to the same URI. Parsing yields exactly the components that the URI grammar assigns, and unquoted special '
   'characters of the user part are escaped.',
   ['inputs'], 'all user, password, host (names, IPv4, IPv6), port, parameter and header values',
   'the only self-test samples a dozen literal URIs and is not in the test suite.',
   ['sippy/SipURL.py'], [('parser', 'sippy/SipURL.py:parseSipURL/setParams'), ('formatter', 'sippy/SipURL.py:localStr')],
   ['parsed fields', 'formatted text']),
 P('M02', 'Address headers survive parsing and formatting',
   'For From, To, Contact, Route, Record-Route, Refer-To, P-Asserted-Identity, Diversion and the like, the display name, '
   'URI, tag and every other parameter and their order survive formatting and parsing. A comma-separated list is split '
   'into exactly its entries, in order, with commas inside quotes or angle brackets left alone, and "*" is kept as such '
   'in Contact.',
   ['inputs'], 'all display names, URIs and parameters, lists of up to three entries',
   NOTEST + 'quoting and splitting depend on every combination of special characters.',
   ['sippy/SipAddress.py', 'sippy/SipAddressHF.py', 'sippy/SipFrom.py', 'sippy/SipContact.py', 'sippy/SipRoute.py'],
   [('address parser', 'sippy/SipAddress.py:__init__'), ('list splitting', 'sippy/SipAddressHF.py:__init__')],
   ['parsed fields', 'formatted text']),
 P('M03', 'Structured headers keep every field',
   'Via, CSeq, Call-ID, Max-Forwards, Expires, RSeq, RAck, Replaces, Reason, Warning, Allow, Supported, Content-Type, '
   'Cisco-GUID and the authentication headers yield on parsing exactly the field values that their text denotes, and '
   'formatting any such header value and parsing it back gives the same values. Every long and compact header name, in '
   'any letter case, leads to the same header.',
   ['inputs'], 'all field values within the grammar of each header',
   NOTEST + 'only a handful of literals are sampled for Reason and Content-Type.',
   ['sippy/SipHeader.py', 'sippy/SipVia.py', 'sippy/SipCSeq.py', 'sippy/SipReplaces.py', 'sippy/SipReason.py',
    'sippy/SipRAck.py', 'sippy/SipNumericHF.py', 'sippy/SipWarning.py', 'sippy/SipAuthorization.py', 'sippy/SipWWWAuthenticate.py'],
   [('header factory', 'sippy/SipHeader.py:SipHeader'), ('per-header parse/format', 'sippy/Sip*.py')],
   ['parsed fields', 'formatted text']),
 P('M04', 'Whole messages survive parsing and forwarding',
   'Parsing a SIP message gives its start line, all its headers in order (known, unknown, folded, compact, any letter '
   'case; Content-Type and Content-Length describe the body and are not among them) and, for requests and for responses '
   '101 to 399, exactly the body bytes its Content-Length announces, or all that follow when there is no Content-Length '
   '(the bodies of 100 and of error responses are ignored by design); a message whose body is too short is refused '
   'unless only a final line end is missing. Formatting and parsing again gives the same message. '
   'The announced Content-Length always equals the number of bytes of the body that is put on the wire, and a '
   'Content-Type accompanies every body.',
   ['inputs'], 'all start lines, header sequences, line endings, bodies and lengths within bounds',
   NOTEST + 'the framing must hold for all combinations of headers, lengths and bodies.',
   ['sippy/SipMsg.py', 'sippy/SipRequest.py', 'sippy/SipResponse.py', 'sippy/MsgBody.py', 'sippy/SipHeader.py'],
   [('splitting', 'sippy/SipMsg.py:__init__'), ('body framing', 'sippy/SipMsg.py:init_body'), ('output', 'sippy/SipMsg.py:localStr')],
   ['parsed fields', 'formatted text']),
 P('M05', 'Copies are equal and independent',
   'A copy of any message, header, URI, address or body (parsed or not) formats to the same text and has the same '
   'values as its original. Changing the copy never changes the original, and the other way round.',
   ['inputs', 'histories'], 'all headers, bodies and messages, and every mutator applied to either side',
   NOTEST + 'sharing only shows after a copy, a mutation and a read of the other side.',
   ['sippy/SipMsg.py', 'sippy/MsgBody.py', 'sippy/SdpBody.py', 'sippy/SipAddress.py', 'sippy/SipURL.py'],
   [('getCopy of each class', 'sippy/*.py:getCopy')], ['formatted text before and after mutation']),
 P('M06', 'SDP is carried faithfully',
   'Parsing an SDP body and formatting it yields an equivalent description: session-level fields, each media section\'s '
   'type, port, protocol and formats, and all attribute lines in order. Re-addressing a media section changes only its '
   'connection address or port, other sections keep the address they had, and the session-level connection is inherited '
   'by sections without their own.',
   ['inputs'], 'all SDP bodies of up to three media sections with attributes, with connection lines at either level',
   NOTEST + 'correctness depends on which of the connection lines are present and on every section combination.',
   ['sippy/SdpBody.py', 'sippy/SdpMediaDescription.py', 'sippy/SdpMedia.py', 'sippy/SdpOrigin.py', 'sippy/SdpConnecton.py'],
   [('parser', 'sippy/SdpBody.py:__init__'), ('section', 'sippy/SdpMediaDescription.py')], ['formatted text', 'section fields']),
 P('M07', 'Multipart bodies keep their parts',
   'A multipart body is split at exactly the lines that carry its declared boundary, giving every part with its headers '
   'and content in order. Formatting it again, copying it, or replacing one part leaves all other parts unchanged and '
   'yields a body that parses to the same parts.',
   ['inputs'], 'all boundaries, part contents and part headers within bounds',
   'one literal multipart body is sampled.',
   ['sippy/MultipartMixBody.py', 'sippy/MsgBody.py', 'sippy/SipContentType.py'],
   [('split and join', 'sippy/MultipartMixBody.py')], ['parts', 'formatted text']),
 P('U01', 'Every call attempt ends exactly once and leaves nothing behind',
   'For every call leg and every sequence of signalling messages, application events and timer expiries, the leg reports '
   'at most one connection and at most one end (disconnect or failure), never a connection after its end, and after '
   'its end it dies within a bounded time, reporting its death once, dropping its registration for in-dialog requests '
   'and leaving no pending timer of its own.',
   ['schedules', 'histories', 'inputs'],
   'all interleavings up to the stated length of responses, requests, events and timers for outgoing and incoming legs',
   NOTEST + 'the state machine has a dozen states and a race in each.',
   ['sippy/UA.py', 'sippy/UaStateConnected.py', 'sippy/UacStateTrying.py', 'sippy/UacStateRinging.py',
    'sippy/UasStateProgressing.py', 'sippy/UaStateDead.py'],
   [('state changes', 'sippy/UA.py:changeState'), ('final states', 'sippy/UaStateFailed.py, UaStateDisconnected.py, UaStateDead.py')],
   ['leg callbacks', 'events', 'pending timers']),
 P('U02', 'An established or late-answered call is always released towards the peer',
   'When a leg that has an established dialog with its peer ends for any reason other than the peer\'s own BYE, exactly one '
   'BYE is sent to the peer. An outgoing call abandoned before its answer is cancelled, and if a positive answer arrives '
   'nevertheless it is acknowledged and released with exactly one BYE. An incoming call that is not answered gets '
   'exactly one final response, and a peer\'s BYE is answered 200.',
   ['schedules', 'histories'],
   'all interleavings of hangup, timers, BYE, CANCEL and answers up to the stated length',
   NOTEST + 'the crossing of hangup and answer needs a specific schedule.',
   ['sippy/UaStateConnected.py', 'sippy/UacStateCancelling.py', 'sippy/UacStateUpdating.py', 'sippy/UasStateUpdating.py', 'sippy/UacStateTrying.py'],
   [('BYE on disconnect', 'sippy/UaStateConnected.py:recvEvent'), ('late 200', 'sippy/UacStateCancelling.py:recvResponse')],
   ['datagrams sent']),
 P('U03', 'Sequence numbers order every dialog',
   'Requests sent within a dialog carry strictly increasing sequence numbers (an ACK or CANCEL that of its INVITE), one '
   'Call-ID and constant local and remote tags. A received in-dialog request whose sequence number is not higher than '
   'that of the last accepted one is answered 500 and changes nothing.',
   ['inputs', 'histories'], 'all initial sequence numbers, request orders and gaps',
   NOTEST + 'needs multi-request histories with arbitrary numbers.',
   ['sippy/UA.py', 'sippy/SipCSeq.py'], [('local numbering', 'sippy/UA.py:genRequest'), ('remote check', 'sippy/UA.py:recvRequest')],
   ['datagrams sent', 'events']),
 P('U04', 'In-dialog requests go where the dialog says and only its messages reach it',
   'Requests sent in an established dialog use the Contact with which the peer established it as request URI, the recorded '
   'route (reversed for the caller, in order for the callee) as Route headers, and go to the first loose hop, a strict first hop becoming the '
   'request URI. A received request reaches a leg only if its Call-ID, From tag and To tag are those of the dialog; any '
   'other request is treated as out of dialog.',
   ['inputs', 'histories'], 'all tags, Call-IDs, Contact URIs and Record-Route sets up to two hops',
   NOTEST + 'addressing depends on every route set combination.',
   ['sippy/UA.py', 'sippy/UasStateIdle.py', 'sippy/UacStateTrying.py', 'sippy/UaStateGeneric.py'],
   [('route set', 'sippy/UacStateTrying.py, UasStateIdle.py'), ('matching', 'sippy/UA.py:isYours')], ['datagrams sent', 'callbacks']),
 P('U05', 'Call time limits end calls on time and only then',
   'A leg with a ring, progress or reply limit is ended at exactly that limit after its start unless it progressed or was '
   'answered by then; a connected leg with a credit limit is disconnected exactly when that much time has passed since '
   'its answer, and never otherwise. When several limits apply the earliest one counts, and a limit that was satisfied '
   'or belongs to a finished leg never has any effect.',
   ['schedules', 'inputs', 'configurations'], 'all limit values and combinations, all instants of progress and answer',
   NOTEST + 'the outcome depends on the order of every instant and limit.',
   ['sippy/UA.py', 'sippy/UacStateIdle.py', 'sippy/UacStateTrying.py', 'sippy/UasStateIdle.py', 'sippy/UasStateTrying.py'],
   [('limits', 'sippy/UA.py:startCreditTimer/expires/no_reply_expires/no_progress_expires')], ['events with their instants']),
 P('U06', 'Answered challenges are retried exactly once with a valid answer',
   'When an outgoing call is challenged and credentials are configured, the INVITE is repeated exactly once for that '
   'challenge with the same Call-ID and From, a higher sequence number, unchanged body and additional headers, and an '
   'authorization answering that challenge (and the one before it, when both a proxy and the server challenge). Without '
   'usable credentials or on a second challenge of the same kind the failure is reported instead. Challenges of a '
   'registration are answered likewise, up to three in a row; otherwise it is renewed on schedule.',
   ['inputs', 'histories'], 'all challenge codes, realms, nonces, algorithms, and up to three consecutive challenges',
   NOTEST + 'no test sends a challenge.',
   ['sippy/UA.py', 'sippy/SipRegistrationAgent.py', 'sippy/UaStateConnected.py'],
   [('challenge processing', 'sippy/UA.py:processChallenge'), ('registration', 'sippy/SipRegistrationAgent.py')],
   ['datagrams sent', 'events']),
 P('U07', 'A registration is kept up until it is stopped',
   'A registration agent that is not stopped has at every time a REGISTER under way or the next one scheduled: after the '
   'time the registrar granted to its own contact, among however many it lists in whatever form, else by its Expires '
   'header, else the time asked for; whatever else the answer contains, the next one comes within the time asked for and '
   'not before a second has passed, and each answer is reported once.',
   ['inputs', 'histories'], 'all answers within bounds',
   NOTEST + 'registrars answer in many ways.',
   ['sippy/SipRegistrationAgent.py'], [('gotreply', 'sippy/SipRegistrationAgent.py:gotreply')], ['REGISTER requests and their times', 'callbacks']),
 P('A01', 'Digest answers are computed and verified as RFC 2617/7616/8760 say',
   'A credentials answer generated for a challenge equals the digest defined by the RFC for its algorithm, realm, nonce, '
   'quality of protection, method, URI and body. Verification accepts an answer exactly when it equals that digest for '
   'the given user, password and method, and when its nonce is one this server issued, and rejects everything else.',
   ['inputs'], 'all user names, passwords, realms, nonces, methods, URIs, bodies and all supported algorithms and qop values',
   NOTEST + 'acceptance must fail for every wrong field, not for a sampled one.',
   ['sippy/SipAuthorization.py', 'sippy/SipWWWAuthenticate.py', 'sippy/Security/SipNonce.py'],
   [('digest', 'sippy/SipAuthorization.py:DigestCalc*'), ('verify', 'sippy/SipAuthorization.py:verify'), ('challenge', 'sippy/SipWWWAuthenticate.py:genAuthHF')],
   ['verification result', 'formatted header']),
 P('A02', 'A nonce is accepted only if issued here, for that algorithm, and not expired',
   'A nonce handed out by this server is accepted from the moment it was issued until exactly 32 seconds (its validity '
   'period) later, and only with the algorithms it was issued for. A nonce altered in any position (a character replaced, '
   'inserted or removed), one from another server instance, or none at all is refused, and validation never raises.',
   ['inputs', 'schedules'], 'all instants, algorithms, and alterations of any position',
   'the existing self-test samples a handful of instants and strings.',
   ['sippy/Security/SipNonce.py'], [('oracle', 'sippy/Security/SipNonce.py:HashOracle')], ['validation result']),
 P('B01', 'Both legs of a bridged call live and die together',
   'In the back-to-back agent every event on one leg is reflected on the other: ringing, answer, re-negotiation, '
   'rejection and hangup. When either leg ends for whatever reason the other is ended too, and when both are dead the '
   'call disappears from the call list and no timer, transaction consumer or media session of it remains.',
   ['schedules', 'histories'], 'all interleavings up to the stated length of messages and timers on both legs',
   NOTEST + 'needs complete calls with crossing events.',
   ['sippy/b2bua.py', 'sippy/UA.py'], [('event routing', 'sippy/b2bua.py:CallController.recvEvent'),
     ('teardown', 'sippy/b2bua.py:aDisc/oDisc/aDead/oDead')], ['datagrams sent on both legs', 'call list']),
 P('B02', 'Failover tries the routes in order and answers the caller once',
   'A failed outgoing attempt moves on to the next configured route exactly when the failure code permits it and the '
   'caller is still waiting; each route is tried at most once and in order with its own limits and parameters. The caller '
   'gets exactly one final answer: the answer of the leg that succeeded, or the failure of the last attempt. A caller that '
   'has gone stops the sequence.',
   ['histories', 'configurations'], 'up to three routes, all failure codes, and abandonment at any point',
   NOTEST + 'depends on the sequence of failures.',
   ['sippy/b2bua.py', 'sippy/B2B/Route.py'], [('next route', 'sippy/b2bua.py:CallController.recvEvent/placeOriginate')],
   ['datagrams sent', 'events']),
 P('B03', 'A route specification means what it says',
   'Every parameter of a route specification string (number, host, port, limits, credentials, names, headers, '
   'flags) takes effect with exactly its given value, escaped values are decoded, and unspecified ones take their '
   'defaults. Substitutions of the caller\'s number and identity apply to that call only and never alter the stored route.',
   ['inputs', 'configurations'], 'all parameter values and their combinations within bounds',
   'two literal strings are sampled by an unlisted self-test.',
   ['sippy/B2B/Route.py', 'sippy/b2bua.py'], [('parser', 'sippy/B2B/Route.py:__init__'), ('customisation', 'sippy/B2B/Route.py:customize')],
   ['route fields']),
 P('B04', 'A call never outlasts the credit it was authorised for',
   'A bridged call is disconnected exactly when its credit time has passed since its answer, whatever re-negotiation or '
   'keep-alive happens in between. The credit is that of the route, or that granted by authorisation if the route has '
   'none, and never more than the configured maximum. A grant of nothing or an authorisation failure or timeout never '
   'results in a connected call.',
   ['schedules', 'inputs'], 'all credit values and sources, answer instants',
   NOTEST + 'credit limits only show at specific instants.',
   ['sippy/b2bua.py', 'sippy/UA.py', 'sippy/B2B/Route.py'], [('credit', 'sippy/b2bua.py:CallController.placeOriginate/rDone')],
   ['datagrams sent with instants']),
 P('B05', 'Accounting opens and closes exactly once per leg',
   'For each call leg accounting starts at most once and is closed exactly once after it has started, in that order, '
   'whatever happens on the leg; a call whose authorisation is granted only after the caller has gone is closed at once. The closing record\'s duration is the time between answer and end, zero for a call that '
   'was never answered, and its outcome corresponds to how the leg ended.',
   ['schedules', 'histories'], 'all connect/fail/disconnect sequences and instants',
   NOTEST + 'double or missing records need specific callback orders.',
   ['sippy/RadiusAccounting.py', 'sippy/b2bua.py'], [('accounting', 'sippy/RadiusAccounting.py:conn/disc')], ['accounting requests']),
 P('B06', 'Only admitted callers get a call, and each answer to them is right',
   'An INVITE from an address that is not on the accepted list is refused with 403 and creates no call; one whose hop limit '
   'is used up is refused with 483, one without an allowed payload type with 488, one after a restart or stop was '
   'requested with 503, and callers are challenged as configured. What is passed on (listed headers, allowed payload '
   'types, rewritten number) is exactly what the configuration says. A request outside a dialog is answered (200 to '
   'NOTIFY and PING, 481 if it names a dialog that does not exist, 501 to others) and creates no call. The hop limit sent '
   'onwards is one less than received.',
   ['inputs', 'configurations'], 'all methods, source addresses, accept lists, Max-Forwards values',
   NOTEST + 'refusals must hold for all addresses and methods.',
   ['sippy/b2bua.py'], [('admission', 'sippy/b2bua.py:CallMap.recvRequest')], ['datagrams sent', 'call list']),
 P('B07', 'Registrations and subscriptions are relayed faithfully',
   'With a proxy configured every REGISTER and SUBSCRIBE is sent to it once, with one hop less, an own Via on top, a Path '
   'if supported, and otherwise unchanged; each response comes back once to the request it belongs to without the own Via. '
   'Repeated requests are answered again, not relayed again, and one nobody answers is answered 408.',
   ['inputs', 'schedules'], 'all codes, hop limits, header presence, orders and repetitions for two requests',
   NOTEST + 'the relay is not tested at all.',
   ['sippy/StatefulProxy.py', 'sippy/b2bua.py'], [('relay', 'sippy/StatefulProxy.py:recvRequest/recvResponse')], ['datagrams sent']),
 P('B08', 'Whatever body a party sends, its request is answered once and the call stays consistent',
   'An INVITE, answer, re-INVITE or ACK may carry any body: SDP with malformed, missing or unknown lines, text of another '
   'type, a multipart body or one that only claims to be. With a payload policy or media relay configured or not, the '
   'request gets exactly one final answer, the call is up at both sides or over at both, nothing is left of it '
   'afterwards, and with a policy no audio type goes on that it does not allow, wherever in the body it stands.',
   ['inputs', 'histories'], 'all bodies within the bounds at each of seven places of a call, policy and relay on or off',
   NOTEST + 'an exception raised by one odd line leaves a caller without any answer.',
   ['sippy/b2bua.py', 'sippy/SdpBody.py', 'sippy/SdpMediaDescription.py', 'sippy/Rtp_proxy/Session/side.py'],
   [('policy', 'sippy/b2bua.py:filter_SDP'), ('relay', 'sippy/Rtp_proxy/Session/side.py:_on_sdp_change')], ['datagrams sent', 'call list']),
 P('K01', 'Timers fire on time, in order, exactly as often as asked',
   'A one-shot timer fires once, never before its time, and within one dispatch after it; a periodic one fires once per '
   'period the asked number of times. Timers due together fire in order of their time, a cancelled timer never fires '
   'again, and cancelling or adding timers from inside a firing one neither loses nor duplicates another.',
   ['schedules', 'histories'], 'all delays, periods, cancellations and nested additions for up to four timers',
   'self-tests sample fixed delays in real time.',
   ['sippy/Core/EventDispatcher.py', 'sippy/Time/Timeout.py'], [('dispatch', 'sippy/Core/EventDispatcher.py:dispatchTimers')], ['timer callbacks with instants']),
 P('K02', 'Time stamps are consistent and monotonic',
   'Time stamps compare, subtract, offset and convert consistently: the monotonic order is total, offsets are additive '
   'and reversible, and a stamp built from one clock gives back that clock\'s value. Smoothed wall clock times never '
   'run backwards by more than the adjustment of the clocks, and text forms denote the same instant.',
   ['inputs', 'histories'], 'all clock readings on both clocks for sequences of three stamps',
   'self-tests sample the real clock.',
   ['sippy/Time/MonoTime.py', 'sippy/Math/recfilter.py'], [('clock pair', 'sippy/Time/MonoTime.py')], ['comparison and arithmetic results']),
 P('R01', 'Each media proxy command gets exactly one answer',
   'For every command sent to a media proxy over UDP its callback runs exactly once: with the reply that carries its own '
   'cookie, or with a failure once retransmissions are exhausted or the client is shut down. Retransmissions keep the same '
   'cookie and bytes and stop when answered; late, duplicate, foreign and malformed replies change nothing.',
   ['schedules', 'inputs', 'fault_sequences'], 'all orders of replies, losses, duplicates and timers for up to two commands',
   NOTEST + 'exactly-once depends on the race between reply and retransmission.',
   ['sippy/Rtp_proxy/Client/udp.py', 'sippy/Rtp_proxy/client.py'], [('pending table', 'sippy/Rtp_proxy/Client/udp.py')], ['callbacks', 'datagrams sent']),
 P('R02', 'Media is re-addressed only as the media proxy answered',
   'Passing an SDP body through a media session rewrites the address and port of each relayed section (and its RTCP '
   'attribute and the origin line, whose version grows with each change) to what the proxy returned for that section and '
   'changes nothing else; a section on hold becomes sendonly. Disabled sections and sections of other transports are left '
   'alone, a body with nothing to relay is delivered unchanged, a failure or an invalid reply of the proxy is reported as a '
   'failure. The result is delivered exactly once and only after all sections are answered; commands for one call are '
   'issued one after another in order.',
   ['schedules', 'inputs', 'fault_sequences'], 'up to three sections, all reply orders, failures and addresses',
   NOTEST + 'needs asynchronous replies in every order.',
   ['sippy/Rtp_proxy/session.py', 'sippy/Rtp_proxy/Session/update.py', 'sippy/Rtp_proxy/Session/side.py'],
   [('SDP update', 'sippy/Rtp_proxy/Session/side.py')], ['commands sent', 'rewritten SDP']),
 P('R03', 'Media proxy commands survive formatting and parsing',
   'Formatting a media proxy command and parsing the text back gives the same command, call identifier, tags, address, '
   'port, options (local and remote IPv4 address, codecs, other option letters) and notification data; parsing any '
   'accepted command text and formatting it gives an equivalent command.',
   ['inputs'], 'all command types, option values and combinations within bounds',
   NOTEST + 'a self-test samples a few literals.',
   ['sippy/Rtp_proxy/cmd.py'], [('command codec', 'sippy/Rtp_proxy/cmd.py')], ['parsed fields', 'formatted text']),
 P('R04', 'A media session is released on the proxy exactly when it was created',
   'Ending a call\'s media session sends the proxy exactly one delete for it if any command may have created it there and '
   'none otherwise, naming the same call and tags, also when the session ends while commands are outstanding; nothing '
   'is sent for the session afterwards.',
   ['schedules', 'histories'], 'all orders of updates, replies and deletion',
   NOTEST + 'needs deletion during outstanding commands.',
   ['sippy/Rtp_proxy/session.py'], [('delete', 'sippy/Rtp_proxy/session.py:delete')], ['commands sent']),
 P('R05', 'Media packets are framed, counted and played on schedule',
   'Audio handed to a media end point leaves in whole packets of the negotiated duration, in order, one per period, each '
   'chunk padded with silence only at its end, and every frame is counted once as received and once as processed. '
   'Received audio, with silence for what was lost, is delivered in order in chunks of a tenth of a second whose time '
   'stamps agree with the arrival of their packets; packets of other senders than the target are ignored. Ports are even, '
   'within the range, and a port in use is skipped. However an end point is updated it has one channel, and one writer '
   'while it has a target, and on shutdown everything including the shared server is released exactly once.',
   ['inputs', 'histories'], 'all frame counts, rates, port ranges and choices, update histories within bounds',
   'a few literals are sampled.',
   ['sippy/Rtp/OutputWorker.py', 'sippy/Rtp/Ingest.py', 'sippy/Rtp/EPoint.py', 'sippy/Rtp/Codecs/G711.py', 'sippy/Rtp/Codecs/G722.py',
    'sippy/Network_server.py'],
   [('output', 'sippy/Rtp/OutputWorker.py:_proc_in'), ('input', 'sippy/Rtp/Ingest.py:pkt_proc')], ['packets', 'chunks', 'counters', 'resources']),
 P('R06', 'Each media session operation is carried out in order and its outcome reported once',
   'Playing and stopping a prompt, copying and recording the media of a call and asking for statistics or the version of '
   'the proxy issue exactly the commands for that operation with the call and tags of the session in order, setting the '
   'session up first when it is needed; the outcome, or the failure of the proxy or of the set-up, is reported to the '
   'requester exactly once.',
   ['schedules', 'fault_sequences'], 'all operations with all replies and failures within bounds',
   NOTEST + 'no test has a media proxy.',
   ['sippy/Rtp_proxy/session.py', 'sippy/Rtp_proxy/Session/side.py', 'sippy/Rtp_proxy/Cmd/sequencer.py'],
   [('operations', 'sippy/Rtp_proxy/session.py')], ['commands sent', 'callbacks']),
 P('R07', 'A command to a media proxy over a stream socket is answered once, in order',
   'Each command to a media proxy over a stream socket is sent whole as one line and is answered exactly once, in order, '
   'by its own reply or by a failure; when the connection is lost it is set up again and the command repeated a bounded '
   'number of times. A reply comes in one piece.',
   ['fault_sequences', 'schedules'], 'all connection faults at any call within bounds',
   NOTEST + 'faults of the connection are not tested.',
   ['sippy/Rtp_proxy/Client/stream.py', 'sippy/Rtp_proxy/Client/Worker/external.py'],
   [('worker', 'sippy/Rtp_proxy/Client/Worker/external.py')], ['lines sent', 'callbacks']),
 P('R08', 'A media proxy is used only while it answers, and only for what it can do',
   'A media proxy is available for new sessions only after it has named the right protocol version and has answered which '
   'capabilities it has; a capability is used exactly if the proxy confirmed it. While it is available its status is asked '
   'again 0.9 to 1.1 seconds after each answer; when a status question fails, or any command over UDP stays unanswered, it is '
   'unavailable at once, and its version is asked every 60 seconds (10 percent more or less) until it answers, which makes '
   'it available again. There is never more than one such sequence, nothing is sent after shutdown, the figures shown are '
   'those of the last status answer, and a malformed answer does not stop the supervision. A session is given only to an '
   'available proxy.',
   ['schedules', 'fault_sequences', 'inputs'], 'all orders of answers, failures and elapsed times within bounds',
   NOTEST + 'no test has a media proxy that fails.',
   ['sippy/Rtp_proxy/client.py', 'sippy/Rtp_proxy/session.py'],
   [('supervision', 'sippy/Rtp_proxy/client.py')], ['commands sent', 'online flag', 'capability flags']),
 P('C01', 'Helper processes answer each request once, to its owner',
   'Each authorisation or accounting request handed to an external helper is answered exactly once to its own requester '
   'with the lines the helper wrote for it, in order of submission per worker; a request whose helper fails or cannot be '
   'started, or writes an invalid answer, is answered with an error and the next one gets a new helper; a request '
   'cancelled before a helper took it up is neither carried out nor answered. RADIUS attribute lists and replies are '
   'passed through without loss or corruption of names and values.',
   ['inputs', 'schedules'], 'all attribute values, reply lines and cancellations for up to two requests',
   NOTEST + 'worker hand-over and parsing are not tested.',
   ['sippy/External_command.py', 'sippy/Radius_client.py', 'sippy/RadiusAuthorisation.py'],
   [('worker', 'sippy/External_command.py'), ('attribute encoding', 'sippy/Radius_client.py')], ['callbacks', 'helper input']),
 P('C02', 'Management commands are framed and answered in order',
   'Commands received on the management socket are split at line ends regardless of how the bytes are cut into reads, each '
   'non-empty command is executed exactly once in order, and its reply goes whole and in order to the connection it came '
   'from, also when that is closed afterwards; the listing, disconnect and media timeout commands act on exactly the calls '
   'they name and answer accordingly. A connection from a host that is not accepted gets no command executed.',
   ['inputs', 'schedules'], 'all command bytes and all ways of cutting them into reads within bounds',
   NOTEST + 'the cut points are a schedule.',
   ['sippy/CLIManager.py', 'sippy/b2bua.py'], [('line assembly', 'sippy/CLIManager.py')], ['commands executed', 'replies']),
 P('C03', 'Configuration values mean the same from file and command line',
   'Each configuration option accepts exactly the values its type allows, yields the value written whether it comes from '
   'the command line or from a file, and a later source overrides an earlier one; an invalid value is rejected with an '
   'error naming the option and does not change the configuration.',
   ['inputs', 'configurations'], 'all options and value texts within bounds',
   'a self-test samples a few literals.',
   ['sippy/MyConfigParser.py'], [('checks', 'sippy/MyConfigParser.py')], ['effective values', 'errors']),
]

TECH = 'forking symbolic execution of the real Python code + z3 (bounded)'
NOTES = {}      # id -> level_note (a check exists)
NA = {}         # id -> reason


def main():
    idx = json.load(open(os.path.join(V, 'harness', 'index.json')))
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p in PROPS:
        i = p['id']
        if i in idx and i not in NA:
            checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i,
                           'thorough_cmd': 'python3 check.py %s thorough' % i,
                           'technique': TECH, 'level': 'model_checking',
                           'level_note': NOTES.get(i, 'every path of the real code within the bounds listed in the '
                                                   'evidence file is decided by z3; environment stubs as listed there')})
        else:
            na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
    m = {'version': 1, 'setup_cmd': 'python3 check.py --selftest', 'checks': checks, 'not_applicable': na}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
