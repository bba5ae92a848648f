# Single source of properties.jsonl and MANIFEST.json: run tools/gen.py.
P = []

DF = "static analysis: path-sensitive interprocedural typestate dataflow over go/ssa"
EFF = "static analysis: who-may-call / who-may-write effect rules and backward data-dependence over go/ssa"
TBL = "static analysis: type-checked syntax/SSA tables compared with a frozen specification"
NOTE = ("Decided from the type-checked source and SSA of the current tree, no execution; sound up to the stated abstractions "
        "(loops merged, goroutines explored from a copy of the state where they start, reflection and unsafe not modelled); "
        "the standard library and dependencies are trusted. ")


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), qtext=qtext, why=why,
                  files=files.split(), mech=mech, technique=technique, note=NOTE + note, na=na))


prop("C01", "IP allow/deny lists gate every connection",
     "A client connection exchanges data with a backend, a local HTTP service or an HTTP/3 server only if its remote IP address is permitted by that backend's lists: no deny network contains it and, when an allow list is configured, some allow network contains it. "
     "Every configured network counts, deny takes precedence over allow, and an address that carries no IP is refused. Only ACME TLS-ALPN challenge handshakes are exempt.",
     "inputs configurations schedules", "all remote addresses, configured lists, connection modes (TCP, QUIC, HTTP, HTTP/3, passthrough) and paths through the connection handlers",
     "a test samples a few addresses in one mode; one unguarded path among all modes is a bypass",
     "proxy/proxy.go proxy/quic.go proxy/backend.go proxy/config.go", ["(*Backend).checkIP", "(*Proxy).handleConnection", "(*Proxy).handleQUICConnection", "(*Config).Check"],
     DF + " (IP filter before every sink) and a quantifier automaton for the list scan")

prop("C02", "Client certificates are required and verified whenever configured",
     "For a backend with client authentication configured, no application data is exchanged, over TCP or QUIC, before the client has presented a certificate that chains to the configured roots, has not been revoked, and is authorized by the backend's client ACL. "
     "A certificate issued by a local PKI is checked against that PKI's revocation list, any other with OCSP, and an error while checking refuses the connection.",
     "inputs configurations histories", "all certificates, all backends, modes and reconfigurations",
     "tests cover a handful of certificates on one listener; the obligation spans two TLS configurations, three protocols and reconfiguration",
     "proxy/proxy.go proxy/quic.go proxy/backend.go proxy/config.go", ["(*Proxy).baseTLSConfig", "(*Backend).authorize", "(*Proxy).Reconfigure"],
     DF + " (TLS configuration typestate, verifier decision table, handshake before data)")

prop("C03", "Client certificate ACLs match exact identities and fail closed",
     "With a client ACL, a certificate is authorized only if one of the listed entries is exactly equal to its subject, or, with the DNS:, EMAIL: or URI: prefix, to one of its subject alternative names of that kind. "
     "Without an ACL any verified certificate is authorized; an empty ACL authorizes none. A connection without certificate is never authorized where one is required.",
     "inputs configurations", "all certificates and ACLs",
     "tests sample a few subject names; exactness must hold for every name and prefix",
     "proxy/backend.go proxy/config.go", ["(*Backend).authorize"],
     DF + " (decision table with a quantifier automaton over the ACL scan)")

prop("C04", "SSO guards every request to a protected path",
     "On a backend with single sign-on, no request for a protected path reaches the upstream server, static files, or a local protected handler unless the user has a valid session and satisfies the access policy. "
     "Only the documented login, callback, public-key, revocation and proxy-auth endpoints answer without a session. HTTP/1, HTTP/2, HTTP/3 and WebSocket requests are all covered.",
     "inputs configurations", "all requests, methods, paths and backends, on every protocol",
     "tests send a few requests to a few paths; a bypass needs only one unguarded handler",
     "proxy/backend-sso.go proxy/backend-http.go proxy/proxy.go proxy/websocket.go proxy/http.go", ["(*Backend).enforceSSOPolicy", "(*Backend).authenticateUser", "(*Backend).localHandler"],
     DF + " (SSO policy before every handler sink) and enumeration of the registered local handlers")

prop("C05", "SSO access rules decide by email and domain exactly",
     "Under single sign-on without ACL every authenticated user is allowed; with an ACL a user is allowed only if the ACL lists exactly the user's email, or @ followed by the user's email domain; an empty ACL allows nobody. "
     "The path decides whether a session is required: without configured paths all are protected, otherwise those that begin with a configured path, either as sent or once cleaned of . and .. segments. "
     "With forced re-authentication, a session that is older than the configured age or that was not established for this host is not accepted. A refusal is never followed by the handler.",
     "inputs configurations", "all users, ACLs, paths and session ages", "tests sample a few users",
     "proxy/backend-sso.go proxy/config.go", ["(*Backend).enforceSSOPolicy", "pathMatches"],
     DF + " (decision table with a quantifier automaton over the ACL and path scans)")

prop("C06", "Identity headers cannot be forged by clients",
     "The user-id header that reaches a backend is only ever the identity of the authenticated user: the client's own header is removed before any handler runs and on every path, for HTTP and WebSocket requests. "
     "X-Forwarded-For values and client-certificate headers sent by the client are never forwarded: the proxy sets them from the connection itself.",
     "inputs", "all requests and header spellings", "tests send one forged header",
     "proxy/backend-sso.go proxy/backend-http.go proxy/xfcc.go proxy/websocket.go", ["(*Backend).reverseProxy", "(*Backend).userAuthentication", "addXFCCHeader"],
     DF + " (header deletions before every sink; backward data-dependence of every header value)")

prop("C07", "The proxy's session cookies are never sent to backends",
     "The proxy's authentication and ID-token cookies are removed from every request to a path protected by single sign-on before it is forwarded to a backend or handled by a WebSocket or local handler; every name under which the proxy sets such a cookie is covered, and duplicates are removed too. All other cookies are forwarded.",
     "inputs configurations", "all requests on all single sign-on protected paths", "tests check one SSO path",
     "proxy/backend-http.go proxy/backend-sso.go proxy/internal/cookiemanager/cookiemanager.go", ["cookiemanager.FilterOutAuthTokenCookie"],
     DF + " (cookie filter before every sink; every cookie name set is in the filter's set)")

prop("C08", "Session tokens are accepted only after full validation",
     "A token is accepted as a session only if it was signed with one of the proxy's own keys, found by its key ID, using ES256, RS256 or EdDSA, has not expired, and carries the issuer, audience, session flag and identity provider of the backend it is used for and a subject. "
     "A bearer token is accepted only if addressed to the host and only if it is not itself a session token. "
     "Claims supplied by identity providers cannot override reserved claims, sessions expire within 20 hours, and ID tokens given to users cannot be used as sessions. Authentication cookies are Secure and HttpOnly.",
     "inputs histories", "all tokens and claims", "tests check a few malformed tokens",
     "proxy/internal/tokenmanager/tokenmanager.go proxy/internal/cookiemanager/cookiemanager.go proxy/backend-sso.go", ["(*TokenManager).ValidateToken", "(*CookieManager).ValidateAuthTokenCookie", "(*CookieManager).SetAuthTokenCookie"],
     DF + " (acceptance tables over every success path) and write-order of the claim map")

prop("C09", "Post-login redirects only follow the proxy's own signed URL tokens",
     "The URL a user is sent to after login or logout is one carried in a URL token signed by this proxy for the same browser session; an unsigned, foreign or mismatching token is refused. "
     "No other redirect of the login flow takes its destination from raw request data unless it is an absolute URL on the request's own host.",
     "inputs", "all login, logout and callback requests", "tests follow the happy path",
     "proxy/internal/tokenmanager/urltoken.go proxy/backend-sso.go proxy/internal/oidc/client.go proxy/internal/saml/saml.go proxy/internal/passkeys/manager.go", ["(*TokenManager).ValidateURLToken"],
     DF + " (acceptance table of URL tokens; data-dependence of every redirect target)")

prop("C10", "OIDC logins are bound, single-use and verified",
     "A user is logged in by an OIDC callback only if the state is one this server issued, at most 5 minutes ago, never used before and equal to the browser's nonce cookie; the code is exchanged with that login's PKCE verifier over the configured token endpoint; and the ID token carries that login's nonce. "
     "The email must not be reported unverified and, when a hosted domain is configured, must belong to it. The session is for the host and return URL of that login, and no session is set on any other path.",
     "inputs histories schedules", "all callbacks, replays and interleavings of logins, of any browser and identity provider response",
     "tests follow one login; replay, mixing of two logins and interleavings need all paths",
     "proxy/internal/oidc/client.go proxy/internal/cookiemanager/cookiemanager.go", ["(*ProviderClient).HandleCallback", "(*ProviderClient).RequestLogin"],
     DF + " (every gate established on each path to the code exchange and to the session; single-use automaton with lock identity)")

prop("C11", "SAML assertions are accepted only if signed, addressed and fresh",
     "A SAML login succeeds only from a POST whose response's signature is verified with a configured certificate, and only with data read from the verified element: it answers an outstanding request of this server exactly once, is addressed to this service's ACS URL and audience, reports success, and is within its validity window. "
     "The session's subject and email are the signed NameID and attributes, and its host is the request's.",
     "inputs histories schedules", "all responses, replays, wrapped or partly signed documents and interleavings",
     "tests check one well-formed response; signature wrapping and replay need every read to be from the signed part",
     "proxy/internal/saml/saml.go", ["(*Provider).HandleCallback", "(*Provider).RequestLogin"],
     DF + " (taint from the validated element, gates on each path to the session, single-use automaton)")

prop("C12", "The local OIDC server issues codes and tokens only to the right client",
     "An authorization code or an implicit token is issued only to an authenticated user for a configured client with an exactly matching redirect URI, and the response goes to that redirect URI. "
     "Tokens are sent only for a POST by a client authenticated with its ID, its secret and a registered redirect URI, for a code issued to that client at most two minutes ago, and each code is exchanged at most once. "
     "User info is given once per access token, at most two minutes after it was issued, and only for the user it was issued to.",
     "inputs histories schedules", "all requests, clients, replays and interleavings",
     "tests exercise one client sequentially; races between two exchanges of one code are never sampled",
     "proxy/internal/oidc/server.go", ["(*ProviderServer).ServeAuthorization", "(*ProviderServer).ServeToken", "(*ProviderServer).ServeUserInfo"],
     DF + " (gates on each path to code, token and claim sinks; single-use automaton with lock identity; sweep-age analysis)")

prop("C13", "Passkey ceremonies accept only fresh, verified assertions",
     "A passkey login or registration succeeds only with a challenge this server issued for that ceremony at most 5 minutes ago and used once (it is used up by the first attempt, even one that fails), with user presence and verification flagged, for the right relying party, and, for a login, with a valid signature by a stored key of that user over the presented data. "
     "A key is registered only for the user the challenge was issued to, from this origin, and, at sign-up, only for an allowed subject without a key yet. Stored claims are refreshed only from the same user's session. "
     "Key management needs a session of at most 10 minutes on this host, POST and the CSRF header; it changes only the user's own keys, never removes the current one, and reports success only after the change is stored.",
     "inputs histories schedules fault_sequences", "all ceremonies, replays, interleavings and storage failures",
     "tests use one software key and a store that never fails",
     "proxy/internal/passkeys/manager.go proxy/internal/passkeys/webauthn.go", ["(*Manager).HandleCallback", "(*Manager).ManageKeys", "(*Manager).processAssertion", "(*Manager).processAttestation"],
     DF + " (gates on each path to session, key store and challenge sinks; signed-data provenance; commit typestate)")

prop("C14", "The PKI issues and revokes only for the right person",
     "A certificate is issued only to an authenticated user, by POST with the CSRF header, for a public key whose request was validly self-signed. Its subject starts with, and its email addresses are, the user's email; it is not a CA, its key may not sign certificates or CRLs, its serial number is random, and if it allows client authentication it carries no DNS names, IP addresses or URIs chosen by the user. "
     "It is sent only once it is durably in the list of issued certificates. A certificate is revoked only by POST with the CSRF header, by its owner or an administrator, and success is reported only once that is saved. No revocation is ever undone.",
     "inputs histories fault_sequences", "all requests, users, certificate requests and storage failures", "tests issue and revoke a few certificates with a store that never fails",
     "proxy/internal/pki/pki.go proxy/internal/pki/http.go", ["(*PKIManager).IssueCertificate", "(*PKIManager).RevokeCertificate", "(*PKIManager).handleRequestCert", "(*PKIManager).handleRevokeCert"],
     DF + " (gates on every path to the signature, the revocation and the success answer; provenance of the certificate template's fields; commit typestate)")

prop("C15", "CRL and OCSP answers agree with the revocation state",
     "A new certificate revocation list names every revoked certificate that has not expired, has a new number, is signed by the delegate, expires in the future and is saved before it is returned; an earlier list is returned only while it is current and contains every certificate revoked since it was made. "
     "OCSP answers good only for this CA's name and key and a certificate that was issued and is not revoked, answers revoked for a revoked one, and answers for the serial number that was asked. The record used to accept connections and the list of certificates are updated together and use one encoding of serial numbers.",
     "histories inputs fault_sequences", "all histories of issuing, revoking and asking, and all requests", "tests revoke one certificate and look at one list and answer",
     "proxy/internal/pki/pki.go", ["(*PKIManager).RevocationList", "(*PKIManager).OCSPResponse", "(*PKIManager).RevokeCertificate", "(*PKIManager).IsRevoked"],
     DF + " (universally quantified loop analysis of list construction and reuse; gates on the good status; paired-update typestate; comparison of serial encodings)")

prop("C16", "SSH certificates are issued only to, and only for, the authenticated user",
     "An SSH certificate is signed only for an authenticated user with an email address, on a POST carrying the CSRF header. It is a user certificate whose key ID and only principal are that email address, with a random serial number, constant permissions and a lifetime of at most a day, and it is sent only when it was signed. "
     "The CA's key is saved before it is used, and the key in use is the saved one.",
     "inputs fault_sequences", "all requests, users, keys, options and storage failures", "tests issue one certificate with a store that never fails",
     "proxy/internal/sshca/sshca.go", ["(*SSHCA).ServeCertificate", "(*SSHCA).initCA"],
     DF + " (gates on every path to the signature; provenance of each field of the signed certificate; commit typestate)")

prop("C17", "Static files never leave the document root; path redirects stay on the site",
     "Every file opened, listed or examined for a request is the configured document root joined with a cleaned relative path in which every segment was tested, so that no hidden file and nothing outside the document root is served, and only regular files' contents are sent. "
     "The redirect to a request's cleaned path stays on the requested site, and requests are handled with the cleaned path.",
     "inputs configurations", "all request paths and document roots", "tests sample a few paths",
     "proxy/backend-http.go", ["(*Backend).serveStaticFiles", "pathClean", "sanitizePath"],
     DF + " (quantified loop analysis over path segments; gates on every path to the file system and to redirects)")

prop("C18", "Connections and requests reach only the backend of their server name",
     "A connection is given only to the backend configured under the server name of its ClientHello (the default name when there is none) and its protocols, and never to one that is shutting down; it uses that backend's TLS configuration, and data flows only if the completed handshake is for the same name. "
     "An HTTP request is proxied, or answered with a file by a proxying backend, only if its host is one of that backend's server names. A local endpoint is reached only by requests for its host and path, and a path override applies only to requests under one of its paths.",
     "inputs configurations", "all ClientHello messages, requests and configurations", "tests use a few names; confusing two names needs inputs nobody wrote a test for",
     "proxy/proxy.go proxy/quic.go proxy/backend-http.go", ["(*Proxy).backend", "(*Proxy).handleConnection", "(*Backend).reverseProxy", "(*Backend).handleLocalEndpointsAndAuthorize"],
     DF + " (provenance of the lookup key and of the chosen backend on every path; name gates before every exchange of data)")
prop("C19", "Backend servers are verified with their own parameters",
     "Every connection to a backend server is made for an address of the backend or of the path override that was chosen, with that same object's roots, expected name, and public key pins or client certificate settings, and never with another's; a TLS client to a backend verifies the server's chain unless the configuration explicitly says not to, and then the pins that are configured still hold. "
     "A PKI named by a backend or path override is registered so that its certificates are available and its revocations consulted. HTTP requests use only the transport of the backend's mode, all of which dial through these dialers.",
     "inputs configurations", "all connections to backends under all configurations", "a test against one backend cannot show that no other path or mode skips verification",
     "proxy/backend.go proxy/backend-http.go proxy/quic.go proxy/proxy.go", ["(*Backend).dial", "(*Backend).dialQUICBackend", "(*Backend).reverseProxyTransport", "(*Proxy).Reconfigure"],
     DF + " (provenance of dial addresses and TLS client parameters, owner by owner; gates in the connection verifier)")
prop("C20", "PROXY headers come only from trusted peers and tell the true client",
     "A PROXY protocol header is read from a connection exactly when the peer's TCP address is within a configured network; every configured network is parsed or the configuration rejected. "
     "When a backend or path override enables PROXY headers, every connection to its servers carries one of its version, written first, about the client connection being served; otherwise none is written. "
     "A version option is either absent, v1 or v2. HTTP connections to a backend are shared only between requests with the same client server name, path override and PROXY header.",
     "inputs configurations", "all peers, connections, requests and configurations", "tests use one trusted network and one client at a time",
     "proxy/proxy.go proxy/backend.go proxy/backend-http.go proxy/config.go", ["(*Proxy).acceptProxyHeader", "(*Proxy).handleConnection", "writeProxyHeader", "(*Backend).dial", "(*Backend).reverseProxy"],
     DF + " (quantifier evaluation, ordering of dial, header and TLS on every path, content analysis of the connection-pool key)")
prop("C22", "Reconfiguration is all or nothing, and then governs every connection",
     "A configuration that is rejected, at whatever point, leaves the running proxy as it was: its configuration, table of backends, PKIs, default name, rate limits and servers, and nothing it started is left behind. "
     "One that is accepted was checked, is a private copy, and is installed completely: every server name and protocol of every backend selects a backend, the servers of the previous configuration are shut down, and every open connection is closed unless the new configuration still has a backend in the same mode for its name, permits its address and authorizes its client certificate. "
     "No connection escapes that examination by being set up at the same time.",
     "histories schedules configurations fault_sequences", "all sequences of configurations, valid or not, and all connections open or being set up when they change", "tests reconfigure a few times between connections, and never with a configuration that fails late",
     "proxy/proxy.go proxy/backend.go proxy/quic.go proxy/conntracker.go", ["(*Proxy).Reconfigure", "(*Proxy).reAuthorize", "(*Backend).close", "(*Proxy).handleConnection", "(*Proxy).handleQUICConnection"],
     DF + " (effects before error returns, must-happen effects before success, for-all loop analysis over connections, event order)")
prop("C24", "Connections are counted, bounded, and released",
     "Every connection, stream, file and HTTP response that is accepted, dialed or opened is, on every path including failures, closed or handed to something that closes it. "
     "An accepted connection is entered in the table of open connections before anything is done with it, is served only if their number is within MaxOpen, and counts exactly once as in flight for its backend; all of this is undone exactly once when it closes. A connection to a backend is in the table of outgoing connections while data is forwarded on it. "
     "Forwarding runs both ways, ends in each direction as the half-close options say, and leaves nothing half open without a deadline. Connections queued for a server that shuts down are closed.",
     "inputs schedules fault_sequences", "all connections, under every failure of handshakes, dials, streams and headers", "a leak shows after thousands of connections that fail at one particular point; tests close everything they open",
     "proxy/proxy.go proxy/backend.go proxy/quic.go proxy/http.go proxy/websocket.go proxy/conntracker.go proxy/internal/netw/netw.go proxy/internal/netw/quic.go", ["(*Proxy).handleConnection", "(*Proxy).handleHTTPConnection", "(*Proxy).handleQUICConnection", "(*Backend).bridgeConns", "forward", "(*Conn).Close", "(*proxyListener).Close"],
     "typestate analysis (flow-sensitive, interprocedural) of acquired resources and of connection accounting")
prop("C25", "Shared state is accessed only under its lock; no deadlocks",
     "Every mutable field of an object with a mutex, and what such a field refers to, is read and written only with that mutex held (exclusively for writes), except before the object is shared. Every lock that a function takes it releases on every path, exactly once and in the same mode. "
     "Locks are taken in one global order and none is taken again while held, so no set of goroutines can deadlock on them. Waiting for a condition variable rechecks the condition, and no wakeup is lost. Local variables shared with goroutines are not raced for.",
     "schedules", "all interleavings of connections, requests, reconfiguration, key rotation and shutdown", "tests sample a few schedules; a race or deadlock needs one nobody forced",
     "proxy/proxy.go proxy/backend.go proxy/quic.go proxy/conntracker.go proxy/metrics.go proxy/websocket.go proxy/internal/pki/pki.go proxy/internal/passkeys/manager.go proxy/internal/tokenmanager/tokenmanager.go", ["(*Proxy).backend", "(*Proxy).Reconfigure", "(*Proxy).Shutdown", "(*Backend).incInFlight", "(*Backend).close", "(*connTracker).add"],
     "lockset analysis (flow-sensitive, interprocedural), lock-order graph, goroutine capture analysis")
prop("C26", "No input from the network crashes the proxy",
     "What serves an accepted connection recovers from any panic, and closes that connection. Code that runs where nothing recovers - TLS callbacks, background goroutines, the re-examination of connections, connection bookkeeping - uses a result only after its error was tested, and what may be absent (a peer certificate, a backend, an optional setting, a decoded block) only after a test; takes elements of slices at constant positions only when they are long enough; writes only to maps that were made. "
     "Annotations of connections always have the types that their readers assert. No channel is closed twice, and what sends on a channel that may be closed meanwhile recovers.",
     "inputs schedules histories", "all connections, certificates, handshakes and timings", "one packet at the wrong moment that takes down the whole process, with every tenant on it, is in no test",
     "proxy/proxy.go proxy/backend.go proxy/quic.go proxy/conntracker.go proxy/metrics.go proxy/util.go proxy/internal/netw/netw.go proxy/internal/netw/quic.go proxy/internal/saml/saml.go", ["(*Proxy).handleConnection", "(*Proxy).handleQUICConnection", "(*Proxy).handleQUICTCPStream", "(*Proxy).reAuthorize", "(*Proxy).baseTLSConfig", "(*Proxy).Reconfigure", "(*Backend).dial", "(*Backend).incInFlight", "(*Backend).close"],
     "call-graph reachability from unrecovered goroutines; modular nilness, length and typestate analysis with inferred preconditions",
     "Explicit panics, indexes that are variables, divisions and arithmetic of counters are not decided.")
prop("C27", "Only fresh, matching, authentic OCSP answers count",
     "A certificate passes the OCSP check only if, in one of its verified chains, every certificate that names an OCSP server is found good (or no request can be formed for it); one that is revoked, unknown or about which no server answers is refused. "
     "A response counts only for the certificate it was parsed for, signed by its issuer or by a responder the issuer authorised, and until it expires; it is cached, saved and loaded under the hash of that certificate. "
     "A response stapled by the peer never overrides one that says revoked, and the proxy staples only good responses for its own certificate.",
     "inputs histories", "all certificates, chains, responses, cache contents and clock readings", "there is no test with a hostile responder, and the order of answers matters",
     "proxy/internal/ocspcache/ocsp.go proxy/proxy.go", ["(*OCSPCache).VerifyChains", "(*OCSPCache).Response", "(*OCSPCache).fetchOCSP", "(*OCSPCache).load", "(*OCSPCache).flush", "(*Proxy).baseTLSConfig"],
     DF + " (provenance and freshness gates on every path to the cache and to a result; exists-forall loop analysis over chains)")

prop("C28", "Rate limits apply to every connection and request",
     "A connection to a backend with a bandwidth limit moves data to and from the client only as the limiter of its direction allows, on TCP and on every QUIC stream, from before anything is exchanged with the backend. "
     "Backends that name the same limit share it, under exactly the configured name and with the rates of the current configuration, and a name without an entry is refused. "
     "Every connection, and every HTTP request after the first of its connection, waits for the backend's forward rate limit, and goes no further when the wait fails.",
     "inputs configurations histories", "all connections, requests, configurations and sequences of reconfigurations", "one test measures the speed of one download with one configuration",
     "proxy/internal/netw/netw.go proxy/internal/netw/quic.go proxy/proxy.go proxy/quic.go proxy/backend-http.go proxy/config.go", ["(*Conn).Read", "(*Conn).Write", "(*QUICStream).Read", "(*QUICStream).Write", "(*Proxy).Reconfigure", "(*Proxy).handleConnection", "(*Proxy).handleQUICConnection", "(*Backend).reverseProxy", "(*Config).Check"],
     DF + " (waits on the limiters on every path to a byte moved, a backend dialed or a request forwarded; provenance of the limiters' rates and names)",
     note="Datagrams are not limited. The rate that results from the limiters is arithmetic of golang.org/x/time/rate and is not decided here.")

prop("C29", "TLS is served with safe parameters and the right certificates",
     "Every server handshake uses TLS 1.2 or later with no insecure cipher suite. HTTP/3 is never offered on a TCP connection, and a handshake made without the configuration of the backend, and so without its client authentication, can negotiate the ACME protocol only. "
     "A configured certificate is served only for the names its entry lists, and takes precedence over one from the certificate authority, which is asked only when the terms of service are accepted in the configuration. "
     "The proxy by itself revokes or deletes only certificates none of whose names is a server name of the current configuration, and nothing when the configuration forbids it.",
     "inputs configurations histories", "all hellos, configurations, certificate lists and stored certificates", "tests run with an in-memory certificate manager and one certificate per name; the automatic revocation is never run by them",
     "proxy/proxy.go proxy/quic.go proxy/revoke.go", ["(*Proxy).baseTLSConfig", "(*Proxy).getCertFromConfig", "(*Proxy).Reconfigure", "(*Proxy).handleConnection", "(*Proxy).startQUIC", "(*Proxy).revokeUnusedCertificates", "New"],
     EFF + "; " + DF + " (typestate of configurations, exists-forall loop analysis over certificates and names)")
prop("C31", "Secrets and identifiers are unpredictable",
     "Every key under which login state is kept (OIDC, SAML and passkey login states, authorization codes, access tokens), every passkey challenge and user handle, browser session ID, token key ID, certificate serial number and QUIC reset key contains at least 12 bytes (8 for serial numbers) that were just drawn from the system's random generator without an error, used whole, and not shared between two secrets. "
     "Keys are generated, and signatures made, with that generator only; RSA keys have at least 2048 bits.",
     "inputs fault_sequences histories", "all values ever generated, and failures of the random generator", "a predictable or shortened value looks like any other to a test",
     "proxy/internal/oidc/client.go proxy/internal/oidc/server.go proxy/internal/saml/saml.go proxy/internal/passkeys/manager.go proxy/internal/tokenmanager/urltoken.go proxy/internal/tokenmanager/tokenmanager.go proxy/internal/pki/pki.go proxy/internal/sshca/sshca.go proxy/quic.go", ["(*ProviderClient).RequestLogin", "(*ProviderServer).ServeAuthorization", "(*Provider).RequestLogin", "sessionID", "(*PKIManager).IssueCertificate", "(*Proxy).startQUIC"],
     DF + " (provenance of random bytes from the generator to where they are used, with their number and the test of the error)",
     "That library code (crypto/rand, TPM) is itself random is assumed.")
prop("C32", "Token keys are stored before use, rotated in time, and published",
     "The keys that sign tokens are replaced only by keys that were stored, in the same transaction, without an error; a key is dropped only when no token it signed can still be valid, a new one is made when the newest is older than a day, and the proxy looks at least every hour. "
     "A token is signed with the key that its header names; a new key signs, while there is an older one, only when no copy of the published set can be without it. "
     "The published set has, for every key, its ID and its complete public values, and nothing private.",
     "histories crash_points schedules", "all histories of rotations, restarts and crashes", "rotation takes days; tests run for seconds, and published values are short for one key in 128",
     "proxy/internal/tokenmanager/tokenmanager.go proxy/proxy.go", ["(*TokenManager).rotateKeys", "(*TokenManager).CreateToken", "(*TokenManager).KeyRotationLoop", "(*TokenManager).ServeJWKS"],
     DF + " (order of commit and use, age comparisons that gate dropping and signing, provenance of published values)")

prop("C33", "Other sites cannot act for the user or inject into pages",
     "A page of another site that a logged-in user visits cannot make the user's browser issue or revoke a certificate, sign an SSH key, add or remove a passkey, start or finish a passkey ceremony, or end the session there: such requests count only as POST with a header that other sites cannot send. "
     "Cookies are only sent over TLS, are invisible to scripts, and are not sent with cross-site subrequests. "
     "Pages show what comes from requests, tokens and certificates as text, never as markup, and the pages that manage keys and certificates cannot be framed.",
     "inputs", "all requests to the passkey, PKI and SSH CA endpoints, all cookies set, all pages and responses written", "the tests send well-formed requests from one client and never look at the flags of cookies",
     "proxy/internal/passkeys/manager.go proxy/internal/pki/http.go proxy/internal/sshca/sshca.go proxy/internal/cookiemanager/cookiemanager.go proxy/internal/tokenmanager/urltoken.go proxy/backend-sso.go proxy/metrics.go", ["(*Manager).ManageKeys", "(*Manager).HandleCallback", "(*PKIManager).ServeCertificateManagement", "(*SSHCA).ServeCertificate", "(*CookieManager).SetAuthTokenCookie"],
     DF + " (method and header gates on every path to an effect; flags of each cookie at the call that sets it; taint of responses)",
     note="The logout page and the callbacks of identity providers are reached by plain navigation by design and are not covered. The pages' own scripts are not analysed.")
