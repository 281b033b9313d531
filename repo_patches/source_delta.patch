From 078de1e7acae34e9ddf36ba345927756f487e022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:54 +0000
Subject: [PATCH 01/70] fix: Conn.Write splits data so that a protected record
 never exceeds the record limit

Writes of 16368 bytes and more were refused with "Record size too big"
because the fragment was cut to the limit before encryption.
---
 conn.go         | 6 +++---
 record-layer.go | 6 +++++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/conn.go b/conn.go
index ccf8dc1..56ed882 100644
--- a/conn.go
+++ b/conn.go
@@ -480,16 +480,16 @@ func (c *Conn) Write(buffer []byte) (int, error) {
 	// Send full-size fragments
 	var start int
 	sent := 0
-	for start = 0; len(buffer)-start >= maxFragmentLen; start += maxFragmentLen {
+	for start = 0; len(buffer)-start >= maxProtectedLen; start += maxProtectedLen {
 		err := c.out.WriteRecord(&TLSPlaintext{
 			contentType: RecordTypeApplicationData,
-			fragment:    buffer[start : start+maxFragmentLen],
+			fragment:    buffer[start : start+maxProtectedLen],
 		})
 
 		if err != nil {
 			return sent, err
 		}
-		sent += maxFragmentLen
+		sent += maxProtectedLen
 	}
 
 	// Send a final partial fragment if necessary
diff --git a/record-layer.go b/record-layer.go
index ccb90bd..fd812f8 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -12,6 +12,10 @@ const (
 	recordHeaderLenTLS  = 5       // record header length (TLS)
 	recordHeaderLenDTLS = 13      // record header length (DTLS)
 	maxFragmentLen      = 1 << 14 // max number of bytes in a record
+	maxRecordExpansion  = 256     // max number of bytes that protecting a record adds
+
+	// max number of bytes to put in a record that will be protected
+	maxProtectedLen = maxFragmentLen - maxRecordExpansion
 	labelForKey         = "key"
 	labelForIV          = "iv"
 )
@@ -395,7 +399,7 @@ func (r *DefaultRecordLayer) nextRecord(allowOldEpoch bool) (*TLSPlaintext, erro
 	// Validate size < max
 	size := (int(header[len(header)-2]) << 8) + int(header[len(header)-1])
 
-	if size > maxFragmentLen+256 {
+	if size > maxFragmentLen+maxRecordExpansion {
 		return nil, fmt.Errorf("tls.record: Ciphertext size too big")
 	}
 
-- 
2.43.0


From 191b4fb092eeaa6cdc3d46adefb0e08933c6db25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:00 +0000
Subject: [PATCH 02/70] fix: fragment long encrypted handshake messages below
 the record limit

A Certificate message of 16368 bytes or more could not be sent: the
fragment filled the record before protection was added.
---
 handshake-layer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/handshake-layer.go b/handshake-layer.go
index ae11cb8..954581e 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -436,6 +436,11 @@ func (h *HandshakeLayer) writeFragment(hm *HandshakeMessage, start int, room int
 		hdrlen = handshakeHeaderLenTLS
 	}
 
+	// Leave room for record protection
+	if room > maxProtectedLen && h.conn.Epoch() != EpochClear {
+		room = maxProtectedLen
+	}
+
 	// Compute the amount of body we can fit in
 	room -= hdrlen
 	if room == 0 {
-- 
2.43.0


From 6da26df5b3bf8e5c61d861f71c88974e53e6d434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:05 +0000
Subject: [PATCH 03/70] fix: choose a signature scheme whose curve matches the
 certificate's key

An ECDSA scheme for another curve was taken as usable, and the handshake
then failed with an internal error when signing.
---
 crypto.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crypto.go b/crypto.go
index 4fa59a2..f51f4fa 100644
--- a/crypto.go
+++ b/crypto.go
@@ -183,11 +183,12 @@ func primeFromNamedGroup(group NamedGroup) (p *big.Int) {
 
 func schemeValidForKey(alg SignatureScheme, key crypto.Signer) bool {
 	sigType := sigMap[alg]
-	switch key.(type) {
+	switch k := key.(type) {
 	case *rsa.PrivateKey:
 		return sigType == signatureAlgorithmRSA_PKCS1 || sigType == signatureAlgorithmRSA_PSS
 	case *ecdsa.PrivateKey:
-		return sigType == signatureAlgorithmECDSA
+		// The scheme also fixes the curve
+		return sigType == signatureAlgorithmECDSA && curveMap[alg] == namedGroupFromECDSAKey(&k.PublicKey)
 	default:
 		return false
 	}
-- 
2.43.0


From 39ce17e55bb4f8ce385c0bd64115d1a7af23e86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:11 +0000
Subject: [PATCH 04/70] fix: cover the first ClientHello and the retry with PSK
 binders after a HelloRetryRequest

The client hashed only its second ClientHello and the server recomputed the
retry request with no cipher suite, so a client with a pre-shared key could
not complete with a server that requires a cookie. Recomputing the retry also
consumed DTLS message sequence numbers.
---
 client-state-machine.go | 2 ++
 server-state-machine.go | 5 ++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index d8464a1..41a220a 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -240,6 +240,8 @@ func (state clientStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 		}
 
 		truncHash := params.Hash.New()
+		truncHash.Write(state.firstClientHello.Marshal())
+		truncHash.Write(state.helloRetryRequest.Marshal())
 		truncHash.Write(trunc)
 
 		binder := computeFinishedData(params, binderKey, truncHash.Sum(nil))
diff --git a/server-state-machine.go b/server-state-machine.go
index e392a5d..96a9db2 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -220,7 +220,7 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 			contextBase = append(contextBase, firstClientHello.Marshal()...)
 			// fill in the cookie sent by the client. Needed to calculate the correct hash
 			cookieExt := &CookieExtension{Cookie: clientCookie.Cookie}
-			hrr, err := state.generateHRR(params.Suite,
+			hrr, err := state.generateHRR(initialCipherSuite.Suite,
 				ch.LegacySessionID, cookieExt)
 			if err != nil {
 				return nil, nil, AlertInternalError
@@ -436,6 +436,9 @@ func (state *serverStateStart) generateHRR(cs CipherSuite, legacySessionId []byt
 			return nil, err
 		}
 	}
+	// This is always the server's first message, even if it was sent by an
+	// earlier connection and is only needed for its hash here.
+	state.hsCtx.hOut.msgSeq = 0
 	helloRetryRequest, err := state.hsCtx.hOut.HandshakeMessageFromBody(hrr)
 	if err != nil {
 		logf(logTypeHandshake, "[ServerStateStart] Error marshaling HRR [%v]", err)
-- 
2.43.0


From 002b2c62053a0c244d5c8fb24b624ed9ca0652a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:12 +0000
Subject: [PATCH 05/70] fix: give the message_hash pseudo-message its length

It was hashed with a zero length, so the transcript after a HelloRetryRequest
differed from every other implementation's.
---
 client-state-machine.go | 1 +
 server-state-machine.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/client-state-machine.go b/client-state-machine.go
index 41a220a..470aafb 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -413,6 +413,7 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 		firstClientHello := &HandshakeMessage{
 			msgType: HandshakeTypeMessageHash,
 			body:    h.Sum(nil),
+			length:  uint32(params.Hash.Size()),
 		}
 
 		state.hsCtx.receivedEndOfFlight()
diff --git a/server-state-machine.go b/server-state-machine.go
index 96a9db2..4baf031 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -187,6 +187,7 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 		firstClientHello = &HandshakeMessage{
 			msgType: HandshakeTypeMessageHash,
 			body:    cookie.ClientHelloHash,
+			length:  uint32(len(cookie.ClientHelloHash)),
 		}
 		// have the application validate its part of the cookie
 		if state.Config.CookieHandler != nil && !state.Config.CookieHandler.Validate(state.conn, cookie.ApplicationCookie) {
-- 
2.43.0


From ebf9c63ba71b4d9ccd38ac4699387f8fdb753e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:15 +0000
Subject: [PATCH 06/70] fix: do not report would-block while the rest of a
 handshake message is already buffered

A non-blocking endpoint returned AlertWouldBlock after every record that did
not complete a message, so a caller that waits for the transport to become
readable stalled although all records had arrived.
---
 handshake-layer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/handshake-layer.go b/handshake-layer.go
index 954581e..bb21c64 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -372,7 +372,9 @@ func (h *HandshakeLayer) ReadMessage() (*HandshakeMessage, error) {
 		if err == nil {
 			break
 		}
-		if err != nil && (h.nonblocking || err != AlertWouldBlock) {
+		// The message may go on in a record that is already here, so only
+		// reading a record can tell whether this would block.
+		if err != AlertWouldBlock {
 			return nil, err
 		}
 	}
-- 
2.43.0


From 036524caba2da9dedabce96b09ff5c51b2767044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:52 +0000
Subject: [PATCH 07/70] fix: hold the output lock while key updates and alerts
 are sent

Read answered a peer's key update, and SendKeyUpdate changed the outgoing
keys, without the lock that Write holds, so records could be sealed with the
wrong keys or a reused sequence number and updates of the secrets were lost.
---
 conn.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 56ed882..11c26ff 100644
--- a/conn.go
+++ b/conn.go
@@ -311,6 +311,13 @@ func (c *Conn) consumeRecord() error {
 		return err
 	}
 
+	// Anything but application data can make us send records or change the
+	// outgoing keys, while other threads are writing.
+	if pt.contentType != RecordTypeApplicationData {
+		c.out.Lock()
+		defer c.out.Unlock()
+	}
+
 	switch pt.contentType {
 	case RecordTypeHandshake:
 		logf(logTypeHandshake, "Received post-handshake message")
@@ -443,7 +450,10 @@ func (c *Conn) Read(buffer []byte) (int, error) {
 
 	// Run our timers.
 	if c.config.UseDTLS {
-		if err := c.hsCtx.timers.check(time.Now()); err != nil {
+		c.out.Lock()
+		err := c.hsCtx.timers.check(time.Now())
+		c.out.Unlock()
+		if err != nil {
 			return 0, AlertInternalError
 		}
 	}
@@ -841,6 +851,9 @@ func (c *Conn) SendKeyUpdate(requestUpdate bool) error {
 		return fmt.Errorf("Cannot update keys until after handshake")
 	}
 
+	c.out.Lock()
+	defer c.out.Unlock()
+
 	request := KeyUpdateNotRequested
 	if requestUpdate {
 		request = KeyUpdateRequested
-- 
2.43.0


From 611b092ac9f239469e7378ebb51f64557148d13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:07 +0000
Subject: [PATCH 08/70] fix: hold the output lock while a handshake transition
 changes the outgoing keys

---
 conn.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/conn.go b/conn.go
index 11c26ff..2cbe447 100644
--- a/conn.go
+++ b/conn.go
@@ -790,11 +790,15 @@ func (c *Conn) Handshake() Alert {
 			return alert
 		}
 
+		// The actions can change the outgoing keys while another thread
+		// writes early data.
+		c.out.Lock()
 		for index, action := range actions {
 			logf(logTypeHandshake, "%s taking next action (%d)", label, index)
 			if alert := c.takeAction(action); alert != AlertNoAlert {
 				logf(logTypeHandshake, "Error during handshake actions: %v", alert)
 				c.sendAlert(alert)
+				c.out.Unlock()
 				return alert
 			}
 		}
@@ -819,6 +823,7 @@ func (c *Conn) Handshake() Alert {
 						if alert != AlertNoAlert {
 							logf(logTypeHandshake, "Error during handshake actions: %v", alert)
 							c.sendAlert(alert)
+							c.out.Unlock()
 							return alert
 						}
 					}
@@ -834,6 +839,7 @@ func (c *Conn) Handshake() Alert {
 				assert(c.hsCtx.earlyData == nil)
 			}
 		}
+		c.out.Unlock()
 
 		if c.config.NonBlocking {
 			if alert == AlertStatelessRetry {
-- 
2.43.0


From 2ea6c04179d34b517a598535c9133223e4bbbcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:10 +0000
Subject: [PATCH 09/70] fix: reject a protected record that has no content type
 instead of panicking

---
 record-layer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/record-layer.go b/record-layer.go
index fd812f8..51eed63 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -289,7 +289,10 @@ func (r *DefaultRecordLayer) decrypt(seq uint64, header []byte, pt *TLSPlaintext
 
 	// Find the padding boundary
 	padLen := 0
-	for ; padLen < decryptLen+1 && out.fragment[decryptLen-padLen-1] == 0; padLen++ {
+	for ; padLen < decryptLen && out.fragment[decryptLen-padLen-1] == 0; padLen++ {
+	}
+	if padLen == decryptLen {
+		return nil, 0, fmt.Errorf("tls.record.decrypt: No content type in record")
 	}
 
 	// Transfer the content type
-- 
2.43.0


From 748dd82feb7f994a54bb475bad49ffbba4cd8515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:36 +0000
Subject: [PATCH 10/70] fix: do not index a short alert record before checking
 its length

---
 handshake-layer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/handshake-layer.go b/handshake-layer.go
index bb21c64..b4de1c5 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -202,11 +202,11 @@ func (h *HandshakeLayer) readRecord() error {
 	}
 
 	if pt.contentType == RecordTypeAlert {
-		logf(logTypeIO, "read alert %v", pt.fragment[1])
 		if len(pt.fragment) < 2 {
 			h.sendAlert(AlertUnexpectedMessage)
 			return io.EOF
 		}
+		logf(logTypeIO, "read alert %v", pt.fragment[1])
 		return Alert(pt.fragment[1])
 	}
 
-- 
2.43.0


From c0f6aa3fed52e238ed00652ccd8f4d5aa4ba0968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:10 +0000
Subject: [PATCH 11/70] fix: report a peer's handshake alert as that alert and
 never as an internal control value

---
 alert.go           | 11 +++++++++++
 conn.go            |  5 ++++-
 handshake-layer.go |  4 ++--
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/alert.go b/alert.go
index 430e455..e44feca 100644
--- a/alert.go
+++ b/alert.go
@@ -96,6 +96,17 @@ func (e Alert) String() string {
 	return "alert(" + strconv.Itoa(int(e)) + ")"
 }
 
+// receivedAlert is the alert that a peer sent. The values that are used here to
+// control the handshake mean nothing when they come from a peer.
+func receivedAlert(b byte) Alert {
+	switch alert := Alert(b); alert {
+	case AlertStatelessRetry, AlertWouldBlock, AlertNoAlert:
+		return AlertUnexpectedMessage
+	default:
+		return alert
+	}
+}
+
 func (e Alert) Error() string {
 	return e.String()
 }
diff --git a/conn.go b/conn.go
index 2cbe447..0e6ccb7 100644
--- a/conn.go
+++ b/conn.go
@@ -385,7 +385,7 @@ func (c *Conn) consumeRecord() error {
 		case AlertLevelWarning:
 			// drop on the floor
 		case AlertLevelError:
-			return Alert(pt.fragment[1])
+			return receivedAlert(pt.fragment[1])
 		default:
 			c.sendAlert(AlertUnexpectedMessage)
 			return io.EOF
@@ -722,6 +722,9 @@ func (r *handshakeMessageReaderImpl) ReadMessage() (*HandshakeMessage, Alert) {
 		}
 		if err != nil {
 			logf(logTypeHandshake, "Error reading message: %v", err)
+			if alert, ok := err.(Alert); ok && alert != AlertNoAlert {
+				return nil, alert
+			}
 			return nil, AlertCloseNotify
 		}
 		if hm != nil {
diff --git a/handshake-layer.go b/handshake-layer.go
index b4de1c5..74d701b 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -203,11 +203,11 @@ func (h *HandshakeLayer) readRecord() error {
 
 	if pt.contentType == RecordTypeAlert {
 		if len(pt.fragment) < 2 {
-			h.sendAlert(AlertUnexpectedMessage)
+			// This layer only reads, so it can't send an alert.
 			return io.EOF
 		}
 		logf(logTypeIO, "read alert %v", pt.fragment[1])
-		return Alert(pt.fragment[1])
+		return receivedAlert(pt.fragment[1])
 	}
 
 	assert(h.ctx.hIn.conn != nil)
-- 
2.43.0


From 67c3146f9cf15951a457c9f4c65df48c03294044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:34 +0000
Subject: [PATCH 12/70] fix: reject invalid key shares instead of panicking or
 continuing without a shared secret

---
 client-state-machine.go |  6 +++++-
 crypto.go               | 10 ++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index 470aafb..3b07e0b 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -471,7 +471,11 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 		}
 
 		state.Params.UsingDH = true
-		dhSecret, _ = keyAgreement(sks.Group, sks.KeyExchange, priv)
+		dhSecret, err = keyAgreement(sks.Group, sks.KeyExchange, priv)
+		if err != nil {
+			logf(logTypeHandshake, "[ClientStateWaitSH] Invalid key share [%v]", err)
+			return nil, nil, AlertIllegalParameter
+		}
 	}
 
 	suite := sh.CipherSuite
diff --git a/crypto.go b/crypto.go
index f51f4fa..12542c2 100644
--- a/crypto.go
+++ b/crypto.go
@@ -269,6 +269,9 @@ func keyAgreement(group NamedGroup, pub []byte, priv []byte) ([]byte, error) {
 
 		crv := curveFromNamedGroup(group)
 		pubX, pubY := elliptic.Unmarshal(crv, pub)
+		if pubX == nil {
+			return nil, fmt.Errorf("tls.keyagreement: Public key is not a point on the curve")
+		}
 		x, _ := crv.Params().ScalarMult(pubX, pubY, priv)
 		xBytes := x.Bytes()
 
@@ -287,6 +290,10 @@ func keyAgreement(group NamedGroup, pub []byte, priv []byte) ([]byte, error) {
 		p := primeFromNamedGroup(group)
 		x := big.NewInt(0).SetBytes(priv)
 		Y := big.NewInt(0).SetBytes(pub)
+		one := big.NewInt(1)
+		if Y.Cmp(one) <= 0 || Y.Cmp(big.NewInt(0).Sub(p, one)) >= 0 {
+			return nil, fmt.Errorf("tls.keyagreement: Public key out of range")
+		}
 		ZBytes := big.NewInt(0).Exp(Y, x, p).Bytes()
 
 		ret := make([]byte, numBytes)
@@ -303,6 +310,9 @@ func keyAgreement(group NamedGroup, pub []byte, priv []byte) ([]byte, error) {
 		copy(private[:], priv)
 		copy(public[:], pub)
 		curve25519.ScalarMult(&ret, &private, &public)
+		if ret == [32]byte{} {
+			return nil, fmt.Errorf("tls.keyagreement: Shared secret is all zeros")
+		}
 
 		return ret[:], nil
 
-- 
2.43.0


From bc7e49ed7d522e3e48f8012b0e2013cb29fbf0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:01 +0000
Subject: [PATCH 13/70] fix: reject an empty server Certificate instead of
 panicking

---
 client-state-machine.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client-state-machine.go b/client-state-machine.go
index 3b07e0b..a6a2610 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -825,6 +825,10 @@ func (state clientStateWaitCV) Next(hr handshakeMessageReader) (HandshakeState,
 	hcv := state.handshakeHash.Sum(nil)
 	logf(logTypeHandshake, "Handshake Hash to be verified: [%d] %x", len(hcv), hcv)
 
+	if len(state.serverCertificate.CertificateList) == 0 {
+		logf(logTypeHandshake, "[ClientStateWaitCV] Server sent no certificate")
+		return nil, nil, AlertDecodeError
+	}
 	serverPublicKey := state.serverCertificate.CertificateList[0].CertData.PublicKey
 	if err := certVerify.Verify(serverPublicKey, hcv); err != nil {
 		logf(logTypeHandshake, "[ClientStateWaitCV] Server signature failed to verify")
-- 
2.43.0


From ddc7a1d1e02dad7cdbc0124a8b12625dfe92e484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:06 +0000
Subject: [PATCH 14/70] fix: client rejects a PSK it did not offer and a
 ServerHello with no key exchange

---
 client-state-machine.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index a6a2610..729df59 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -457,7 +457,12 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 		return nil, nil, AlertDecodeError
 	}
 
-	if foundExts[ExtensionTypePreSharedKey] && (serverPSK.SelectedIdentity == 0) {
+	if foundExts[ExtensionTypePreSharedKey] {
+		// We offer at most one PSK
+		if state.earlySecret == nil || serverPSK.SelectedIdentity != 0 {
+			logf(logTypeHandshake, "[ClientStateWaitSH] Server selected a PSK that was not offered")
+			return nil, nil, AlertIllegalParameter
+		}
 		state.Params.UsingPSK = true
 	}
 
@@ -478,6 +483,11 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 		}
 	}
 
+	if !state.Params.UsingPSK && !state.Params.UsingDH {
+		logf(logTypeHandshake, "[ClientStateWaitSH] Neither a PSK nor a key share")
+		return nil, nil, AlertMissingExtension
+	}
+
 	suite := sh.CipherSuite
 	state.Params.CipherSuite = suite
 
@@ -502,6 +512,7 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 		if params.Hash != state.earlyHash {
 			logf(logTypeCrypto, "Change of hash between early and normal init early=[%02x] suite=[%04x] hash=[%02x]",
 				state.earlyHash, suite, params.Hash)
+			return nil, nil, AlertIllegalParameter
 		}
 
 		earlySecret = state.earlySecret
-- 
2.43.0


From 012e1d5dd2943ae2449bb4ce1a8434c5d9042736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:23 +0000
Subject: [PATCH 15/70] fix: do not dereference a nil CookieProtector when a
 client sends an unsolicited cookie

---
 server-state-machine.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/server-state-machine.go b/server-state-machine.go
index 4baf031..a971ff9 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -151,7 +151,8 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 		return nil, nil, AlertDecodeError
 	}
 
-	clientSentCookie := len(clientCookie.Cookie) > 0
+	// A cookie means nothing to a server that doesn't send any
+	clientSentCookie := state.Config.RequireCookie && len(clientCookie.Cookie) > 0
 
 	if foundExts[ExtensionTypeServerName] {
 		connParams.ServerName = string(*serverName)
@@ -179,7 +180,7 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 			return nil, nil, AlertDecryptError
 		}
 		cookie := &cookie{}
-		if rb, err := syntax.Unmarshal(plainCookie, cookie); err != nil && rb != len(plainCookie) { // this should never happen
+		if rb, err := syntax.Unmarshal(plainCookie, cookie); err != nil || rb != len(plainCookie) { // this should never happen
 			logf(logTypeHandshake, fmt.Sprintf("[ServerStateStart] Error unmarshaling cookie [%v]", err))
 			return nil, nil, AlertInternalError
 		}
-- 
2.43.0


From 41480c814b5639b005fd981912a9dbaa3ab27c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:10 +0000
Subject: [PATCH 16/70] fix: bound handshake message lengths and fragment
 offsets taken from the wire

---
 handshake-layer.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/handshake-layer.go b/handshake-layer.go
index 74d701b..7bf493b 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -10,6 +10,7 @@ const (
 	handshakeHeaderLenTLS  = 4       // handshake message header length
 	handshakeHeaderLenDTLS = 12      // handshake message header length
 	maxHandshakeMessageLen = 1 << 24 // max handshake message length
+	maxReceivedMessageLen  = 1 << 18 // max length that a peer can make us wait and allocate for
 )
 
 // struct {
@@ -150,6 +151,9 @@ func (d handshakeLayerFrameDetails) frameLen(hdr []byte) (int, error) {
 	// The length of this fragment (as opposed to the message)
 	// is always the last three bytes for both TLS and DTLS
 	val, _ := decodeUint(hdr[len(hdr)-3:], 3)
+	if val > maxReceivedMessageLen {
+		return 0, AlertIllegalParameter
+	}
 	return int(val), nil
 }
 
@@ -262,6 +266,12 @@ func (h *HandshakeLayer) newFragmentReceived(hm *HandshakeMessage) (*HandshakeMe
 		return nil, nil
 	}
 
+	// Drop a fragment that isn't part of any message we would accept.
+	if hm.length > maxReceivedMessageLen || hm.offset+uint32(len(hm.body)) > hm.length {
+		logf(logTypeHandshake, "Dropping invalid fragment %v(%v) of %v", hm.offset, len(hm.body), hm.length)
+		return nil, nil
+	}
+
 	// TODO(ekr@rtfm.com): Send an ACK immediately if we got something
 	// out of order.
 	h.ctx.receivedHandshakeMessage()
-- 
2.43.0


From aa704ab0b816e937fcaa267c8fecfa589d758d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:21 +0000
Subject: [PATCH 17/70] fix: write the level before the description in alerts

---
 conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 0e6ccb7..93ba478 100644
--- a/conn.go
+++ b/conn.go
@@ -531,7 +531,7 @@ func (c *Conn) sendAlert(err Alert) error {
 		level = AlertLevelError
 	}
 
-	buf := []byte{byte(err), byte(level)}
+	buf := []byte{byte(level), byte(err)}
 	c.out.WriteRecord(&TLSPlaintext{
 		contentType: RecordTypeAlert,
 		fragment:    buf,
-- 
2.43.0


From 9c908ae47c7d9ee6c9bc099c2c7004e6a5175108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:27 +0000
Subject: [PATCH 18/70] fix: removing an expired timer must not remove the
 timers behind it

---
 timer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/timer.go b/timer.go
index 0b7f7af..ba2b9c1 100644
--- a/timer.go
+++ b/timer.go
@@ -56,9 +56,10 @@ func (ts *timerSet) start(label string, cb timerCb, delayMs uint32) *timer {
 // We should be able to do just one list manipulation, as long
 // as we're careful about how we handle inserts during callbacks.
 func (ts *timerSet) check(now time.Time) error {
-	for i, t := range ts.ts {
+	for n := len(ts.ts); n > 0; n-- {
+		t := ts.ts[0]
 		if now.After(t.deadline) {
-			ts.ts = append(ts.ts[:i], ts.ts[:i+1]...)
+			ts.ts = ts.ts[1:]
 			if t.cb != nil {
 				logf(logTypeHandshake, "Timer %s expired [%v > %v]", t.label, now, t.deadline)
 				cb := t.cb
-- 
2.43.0


From 72bc4719c072213914a77da74fa8553b581e35a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:32 +0000
Subject: [PATCH 19/70] fix: keep queued DTLS fragments ordered and drop the
 delivered ones

---
 handshake-layer.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/handshake-layer.go b/handshake-layer.go
index 7bf493b..d3347e7 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -251,14 +251,9 @@ func (h *HandshakeLayer) sendAlert(err Alert) error {
 
 func (h *HandshakeLayer) noteMessageDelivered(seq uint32) {
 	h.msgSeq = seq + 1
-	var i int
-	var m *HandshakeMessage
-	for i, m = range h.queued {
-		if m.seq > seq {
-			break
-		}
+	for len(h.queued) > 0 && h.queued[0].seq <= seq {
+		h.queued = h.queued[1:]
 	}
-	h.queued = h.queued[i:]
 }
 
 func (h *HandshakeLayer) newFragmentReceived(hm *HandshakeMessage) (*HandshakeMessage, error) {
@@ -290,7 +285,7 @@ func (h *HandshakeLayer) newFragmentReceived(hm *HandshakeMessage) (*HandshakeMe
 		if hm.seq < f.seq {
 			break
 		}
-		if hm.offset < f.offset {
+		if hm.seq == f.seq && hm.offset < f.offset {
 			break
 		}
 	}
-- 
2.43.0


From 3dcc5a6cb252f839443d2984926f0945f2466f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:44 +0000
Subject: [PATCH 20/70] fix: give DTLS records the numbers that ACKs refer to

---
 handshake-layer.go | 2 +-
 record-layer.go    | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/handshake-layer.go b/handshake-layer.go
index d3347e7..a8498f8 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -486,7 +486,7 @@ func (h *HandshakeLayer) writeFragment(hm *HandshakeMessage, start int, room int
 			hm.seq,
 			start,
 			len(body),
-			h.conn.(*DefaultRecordLayer).cipher.combineSeq(true),
+			hm.cipher.combineSeq(true),
 			false,
 		})
 		err = h.conn.(*DefaultRecordLayer).writeRecordWithPadding(
diff --git a/record-layer.go b/record-layer.go
index 51eed63..52648f5 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -444,6 +444,7 @@ func (r *DefaultRecordLayer) nextRecord(allowOldEpoch bool) (*TLSPlaintext, erro
 		}
 	}
 	pt.epoch = cipher.epoch
+	pt.seq = seq
 
 	// Check that plaintext length is not too long
 	if len(pt.fragment) > maxFragmentLen {
-- 
2.43.0


From fc4fad71212539263d1a0d6821903688e08a80ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:31 +0000
Subject: [PATCH 21/70] fix: discard invalid DTLS records and read old-epoch
 records with their own key

---
 record-layer.go | 47 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/record-layer.go b/record-layer.go
index 52648f5..b5d5c6d 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -266,22 +266,22 @@ func (r *DefaultRecordLayer) encrypt(cipher *cipherState, seq uint64, header []b
 	return ciphertext
 }
 
-func (r *DefaultRecordLayer) decrypt(seq uint64, header []byte, pt *TLSPlaintext) (*TLSPlaintext, int, error) {
+func (r *DefaultRecordLayer) decrypt(cipher *cipherState, seq uint64, header []byte, pt *TLSPlaintext) (*TLSPlaintext, int, error) {
 	assert(r.direction == DirectionRead)
 	logf(logTypeIO, "%s Decrypt seq=[%x]", r.label, seq)
-	if len(pt.fragment) < r.cipher.overhead() {
-		msg := fmt.Sprintf("tls.record.decrypt: Record too short [%d] < [%d]", len(pt.fragment), r.cipher.overhead())
+	if len(pt.fragment) < cipher.overhead() {
+		msg := fmt.Sprintf("tls.record.decrypt: Record too short [%d] < [%d]", len(pt.fragment), cipher.overhead())
 		return nil, 0, DecryptError(msg)
 	}
 
-	decryptLen := len(pt.fragment) - r.cipher.overhead()
+	decryptLen := len(pt.fragment) - cipher.overhead()
 	out := &TLSPlaintext{
 		contentType: pt.contentType,
 		fragment:    make([]byte, decryptLen),
 	}
 
 	// Decrypt
-	_, err := r.cipher.cipher.Open(out.fragment[:0], r.cipher.computeNonce(seq), pt.fragment, header)
+	_, err := cipher.cipher.Open(out.fragment[:0], cipher.computeNonce(seq), pt.fragment, header)
 	if err != nil {
 		logf(logTypeIO, "%s AEAD decryption failure [%x]", r.label, pt)
 		return nil, 0, DecryptError("tls.record.decrypt: AEAD decrypt failed")
@@ -342,33 +342,51 @@ func (r *DefaultRecordLayer) ReadRecordAnyEpoch() (*TLSPlaintext, error) {
 }
 
 func (r *DefaultRecordLayer) nextRecord(allowOldEpoch bool) (*TLSPlaintext, error) {
-	cipher := r.cipher
 	if r.cachedRecord != nil {
 		logf(logTypeIO, "%s Returning cached record", r.label)
 		return r.cachedRecord, r.cachedError
 	}
 
+	for {
+		header, body, err := r.nextFrame()
+		if err != nil {
+			return nil, err
+		}
+
+		pt, err := r.processFrame(header, body, allowOldEpoch)
+		if err == nil || !r.datagram {
+			return pt, err
+		}
+
+		// Anyone can send us a datagram, so invalid records are discarded.
+		logf(logTypeIO, "%s Discarding record: %v", r.label, err)
+	}
+}
+
+func (r *DefaultRecordLayer) nextFrame() (header, body []byte, err error) {
 	// Loop until one of three things happens:
 	//
 	// 1. We get a frame
 	// 2. We try to read off the socket and get nothing, in which case
 	//    returnAlertWouldBlock
 	// 3. We get an error.
-	var err error
 	err = AlertWouldBlock
-	var header, body []byte
 
 	for err != nil {
 		if r.frame.needed() > 0 {
+			if r.datagram {
+				// A record doesn't continue in the next datagram.
+				r.frame = newFrameReader(r.frame.details)
+			}
 			buf := make([]byte, r.frame.details.headerLen()+maxFragmentLen)
 			n, err := r.conn.Read(buf)
 			if err != nil {
 				logf(logTypeIO, "%s Error reading, %v", r.label, err)
-				return nil, err
+				return nil, nil, err
 			}
 
 			if n == 0 {
-				return nil, AlertWouldBlock
+				return nil, nil, AlertWouldBlock
 			}
 
 			logf(logTypeIO, "%s Read %v bytes", r.label, n)
@@ -381,10 +399,15 @@ func (r *DefaultRecordLayer) nextRecord(allowOldEpoch bool) (*TLSPlaintext, erro
 		// Loop around onAlertWouldBlock to see if some
 		// data is now available.
 		if err != nil && err != AlertWouldBlock {
-			return nil, err
+			return nil, nil, err
 		}
 	}
+	return header, body, nil
+}
 
+func (r *DefaultRecordLayer) processFrame(header, body []byte, allowOldEpoch bool) (*TLSPlaintext, error) {
+	cipher := r.cipher
+	var err error
 	pt := &TLSPlaintext{}
 	// Validate content type
 	switch RecordType(header[0]) {
@@ -437,7 +460,7 @@ func (r *DefaultRecordLayer) nextRecord(allowOldEpoch bool) (*TLSPlaintext, erro
 
 	if cipher.cipher != nil {
 		logf(logTypeIO, "%s RecordLayer.ReadRecord epoch=[%s] seq=[%x] [%d] ciphertext=[%x]", r.label, cipher.epoch.label(), seq, pt.contentType, pt.fragment)
-		pt, _, err = r.decrypt(seq, header, pt)
+		pt, _, err = r.decrypt(cipher, seq, header, pt)
 		if err != nil {
 			logf(logTypeIO, "%s Decryption failed", r.label)
 			return nil, err
-- 
2.43.0


From 45ddd33d814eff89c36d573de0b8ecf34534a883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:45 +0000
Subject: [PATCH 22/70] fix: acknowledge DTLS handshake records that arrive
 after the handshake

---
 conn.go | 19 ++++++++++++++++++-
 dtls.go |  6 ++++++
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 93ba478..355b9f0 100644
--- a/conn.go
+++ b/conn.go
@@ -305,7 +305,13 @@ func NewConn(conn net.Conn, config *Config, isClient bool) *Conn {
 
 // Read up
 func (c *Conn) consumeRecord() error {
-	pt, err := c.in.ReadRecord()
+	var pt *TLSPlaintext
+	var err error
+	if c.config.UseDTLS {
+		pt, err = c.in.(*DefaultRecordLayer).ReadRecordAnyEpoch()
+	} else {
+		pt, err = c.in.ReadRecord()
+	}
 	if pt == nil {
 		logf(logTypeIO, "extendBuffer returns error %v", err)
 		return err
@@ -318,6 +324,14 @@ func (c *Conn) consumeRecord() error {
 		defer c.out.Unlock()
 	}
 
+	if c.config.UseDTLS && pt.epoch != c.in.Epoch() {
+		if pt.contentType == RecordTypeHandshake && pt.epoch != EpochClear {
+			// We have processed this, but the peer didn't get our ACK.
+			return c.hsCtx.sendAckFor(pt)
+		}
+		return nil
+	}
+
 	switch pt.contentType {
 	case RecordTypeHandshake:
 		logf(logTypeHandshake, "Received post-handshake message")
@@ -371,6 +385,9 @@ func (c *Conn) consumeRecord() error {
 
 			start += headerLen + hmLen
 		}
+		if c.config.UseDTLS {
+			return c.hsCtx.sendAckFor(pt)
+		}
 	case RecordTypeAlert:
 		logf(logTypeIO, "extended buffer (for alert): [%d] %x", len(c.readBuffer), c.readBuffer)
 		if len(pt.fragment) != 2 {
diff --git a/dtls.go b/dtls.go
index aa914e3..2599691 100644
--- a/dtls.go
+++ b/dtls.go
@@ -84,6 +84,12 @@ func (h *HandshakeContext) sendAck() error {
 	return nil
 }
 
+// Acknowledge a record that arrived after the handshake.
+func (h *HandshakeContext) sendAckFor(pt *TLSPlaintext) error {
+	h.hIn.recvdRecords = []uint64{pt.seq}
+	return h.sendAck()
+}
+
 func (h *HandshakeContext) processAck(data []byte) error {
 	// Cancel the retransmit timer because we will be resending
 	// and possibly re-arming later.
-- 
2.43.0


From eb5914d313182a9b63b48b0244b7e5cdc8c676f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:51 +0000
Subject: [PATCH 23/70] fix: give each DTLS key update its own epoch

---
 conn.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/conn.go b/conn.go
index 355b9f0..2b9e9f6 100644
--- a/conn.go
+++ b/conn.go
@@ -632,7 +632,7 @@ func (c *Conn) takeAction(actionGeneric HandshakeAction) Alert {
 			logf(logTypeHandshake, "%s Rekey with data still in handshake buffers", label)
 			return AlertDecodeError
 		}
-		err := c.in.Rekey(action.epoch, action.KeySet.Cipher, &action.KeySet)
+		err := c.in.Rekey(nextEpoch(c.in.Epoch(), action.epoch), action.KeySet.Cipher, &action.KeySet)
 		if err != nil {
 			logf(logTypeHandshake, "%s Unable to rekey inbound: %v", label, err)
 			return AlertInternalError
@@ -640,7 +640,7 @@ func (c *Conn) takeAction(actionGeneric HandshakeAction) Alert {
 
 	case RekeyOut:
 		logf(logTypeHandshake, "%s Rekeying out to %s: %+v", label, action.epoch.label(), action.KeySet)
-		err := c.out.Rekey(action.epoch, action.KeySet.Cipher, &action.KeySet)
+		err := c.out.Rekey(nextEpoch(c.out.Epoch(), action.epoch), action.KeySet.Cipher, &action.KeySet)
 		if err != nil {
 			logf(logTypeHandshake, "%s Unable to rekey outbound: %v", label, err)
 			return AlertInternalError
@@ -669,6 +669,14 @@ func (c *Conn) takeAction(actionGeneric HandshakeAction) Alert {
 	return AlertNoAlert
 }
 
+// nextEpoch numbers the epochs of successive key updates
+func nextEpoch(current, next Epoch) Epoch {
+	if next == EpochUpdate && current >= EpochUpdate {
+		return current + 1
+	}
+	return next
+}
+
 func (c *Conn) HandshakeSetup() Alert {
 	var state HandshakeState
 	var actions []HandshakeAction
-- 
2.43.0


From 0a956cd788b712e8847161f711d73605f0b2a68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:53 +0000
Subject: [PATCH 24/70] fix: a HelloRetryRequest must not change the Config
 that other connections share

---
 client-state-machine.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index 729df59..412ff9f 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -379,7 +379,9 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 		// This is actually HRR.
 		hrr := sh
 
-		// Narrow the supported ciphersuites to the server-provided one
+		// Narrow the supported ciphersuites to the server-provided one, for
+		// this connection only
+		state.Config = state.Config.Clone()
 		state.Config.CipherSuites = []CipherSuite{hrr.CipherSuite}
 
 		// Handle external extensions.
-- 
2.43.0


From 6a7d3707622add69337152c3adf8061d434b4be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:59 +0000
Subject: [PATCH 25/70] fix: client rejects a second HelloRetryRequest

---
 client-state-machine.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client-state-machine.go b/client-state-machine.go
index 412ff9f..d8a713b 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -378,6 +378,10 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 	if sh.Random == hrrRandomSentinel {
 		// This is actually HRR.
 		hrr := sh
+		if state.helloRetryRequest != nil {
+			logf(logTypeHandshake, "[ClientStateWaitSH] Second HelloRetryRequest")
+			return nil, nil, AlertUnexpectedMessage
+		}
 
 		// Narrow the supported ciphersuites to the server-provided one, for
 		// this connection only
-- 
2.43.0


From 197d90091531b8a9ce43a8bb2ecd382a42b9f1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:04 +0000
Subject: [PATCH 26/70] fix: connections that share a Config must not replace
 each other's cookie protector

---
 conn.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/conn.go b/conn.go
index 2b9e9f6..62bce5c 100644
--- a/conn.go
+++ b/conn.go
@@ -707,6 +707,9 @@ func (c *Conn) HandshakeSetup() Alert {
 			}
 		}
 	} else {
+		// The config may be shared with other connections
+		c.config.mutex.Lock()
+		defer c.config.mutex.Unlock()
 		if c.config.RequireCookie && c.config.CookieProtector == nil {
 			logf(logTypeHandshake, "RequireCookie set, but no CookieProtector provided. Using default cookie protector. Stateless Retry not possible.")
 			if c.config.NonBlocking {
-- 
2.43.0


From 5c30e3238301e9a1039dd16a49a7973905d0c80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:28 +0000
Subject: [PATCH 27/70] fix: DTLS server sends only a HelloRetryRequest before
 the cookie and a fresh Conn accepts the retry

---
 handshake-layer.go      | 4 ++++
 server-state-machine.go | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/handshake-layer.go b/handshake-layer.go
index a8498f8..4ce33a8 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -129,6 +129,7 @@ type HandshakeLayer struct {
 	sent           []*HandshakeMessage // Sent messages for DTLS
 	recvdRecords   []uint64            // Records we have received.
 	maxFragmentLen int
+	anyFirstSeq    bool // Should we accept a first message with any sequence number
 }
 
 type handshakeLayerFrameDetails struct {
@@ -257,6 +258,9 @@ func (h *HandshakeLayer) noteMessageDelivered(seq uint32) {
 }
 
 func (h *HandshakeLayer) newFragmentReceived(hm *HandshakeMessage) (*HandshakeMessage, error) {
+	if h.anyFirstSeq && hm.msgType == HandshakeTypeClientHello && h.msgSeq == 0 && len(h.queued) == 0 {
+		h.msgSeq = hm.seq
+	}
 	if hm.seq < h.msgSeq {
 		return nil, nil
 	}
diff --git a/server-state-machine.go b/server-state-machine.go
index a971ff9..4d67267 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -88,6 +88,10 @@ func (state serverStateStart) State() State {
 }
 
 func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, []HandshakeAction, Alert) {
+	if state.hsCtx.hIn != nil {
+		// The client may be answering a HelloRetryRequest from another Conn
+		state.hsCtx.hIn.anyFirstSeq = state.Config.RequireCookie
+	}
 	hm, alert := hr.ReadMessage()
 	if alert != AlertNoAlert {
 		return nil, nil, alert
@@ -319,6 +323,7 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 				QueueHandshakeMessage{helloRetryRequest},
 				SendQueuedHandshake{},
 			}
+			state.hsCtx.receivedEndOfFlight()
 			logf(logTypeHandshake, "[ServerStateStart] -> [ServerStateStart]")
 			return state, toSend, AlertStatelessRetry
 		}
-- 
2.43.0


From 6605897f7ee2823947815dc1a495ebf754bddfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:48 +0000
Subject: [PATCH 28/70] fix: DTLS record numbers must not repeat after a
 HelloRetryRequest

---
 record-layer.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/record-layer.go b/record-layer.go
index b5d5c6d..9011f51 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -98,6 +98,7 @@ type DefaultRecordLayer struct {
 	cachedError  error         // Error on the last record read
 
 	cipher      *cipherState
+	clearCipher *cipherState // The cipher of the clear epoch
 	readCiphers map[Epoch]*cipherState
 
 	datagram bool
@@ -159,6 +160,7 @@ func NewRecordLayerDTLS(conn io.ReadWriter, dir Direction) *DefaultRecordLayer {
 	r.cipher = newCipherStateNull()
 	r.readCiphers = make(map[Epoch]*cipherState, 0)
 	r.readCiphers[0] = r.cipher
+	r.clearCipher = r.cipher
 	r.datagram = true
 	return &r
 }
@@ -168,6 +170,11 @@ func (r *DefaultRecordLayer) SetVersion(v uint16) {
 }
 
 func (r *DefaultRecordLayer) ResetClear(seq uint64) {
+	if r.datagram {
+		// Don't use a record number again
+		r.cipher = r.clearCipher
+		return
+	}
 	r.cipher = newCipherStateNull()
 	r.cipher.seq = seq
 }
-- 
2.43.0


From c26c10cfccbd19d87514484a7eb1b3e36ca5b8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:22 +0000
Subject: [PATCH 29/70] fix: ignore early data that the client sent before it
 saw a HelloRetryRequest

---
 handshake-layer.go      | 6 ++++++
 server-state-machine.go | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/handshake-layer.go b/handshake-layer.go
index 4ce33a8..3874167 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -130,6 +130,7 @@ type HandshakeLayer struct {
 	recvdRecords   []uint64            // Records we have received.
 	maxFragmentLen int
 	anyFirstSeq    bool // Should we accept a first message with any sequence number
+	skipEarlyData  bool // Should we ignore early data sent before a HelloRetryRequest arrived
 }
 
 type handshakeLayerFrameDetails struct {
@@ -194,6 +195,11 @@ func (h *HandshakeLayer) readRecord() error {
 
 	switch pt.contentType {
 	case RecordTypeHandshake, RecordTypeAlert, RecordTypeAck:
+	case RecordTypeApplicationData:
+		if h.skipEarlyData {
+			return nil
+		}
+		fallthrough
 	default:
 		return fmt.Errorf("tls.handshakelayer: Unexpected record type %d", pt.contentType)
 	}
diff --git a/server-state-machine.go b/server-state-machine.go
index 4d67267..67a7cfd 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -91,6 +91,7 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 	if state.hsCtx.hIn != nil {
 		// The client may be answering a HelloRetryRequest from another Conn
 		state.hsCtx.hIn.anyFirstSeq = state.Config.RequireCookie
+		state.hsCtx.hIn.skipEarlyData = state.Config.RequireCookie
 	}
 	hm, alert := hr.ReadMessage()
 	if alert != AlertNoAlert {
@@ -387,6 +388,7 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 	}
 
 	state.hsCtx.receivedEndOfFlight()
+	state.hsCtx.hIn.skipEarlyData = false
 
 	logf(logTypeHandshake, "[ServerStateStart] -> [ServerStateNegotiated]")
 	state.hsCtx.SetVersion(tls12Version) // Everything after this should be 1.2.
-- 
2.43.0


From 806b084ed942f8c8a7c7a5eb249a4a6fc1fdd13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:04 +0000
Subject: [PATCH 30/70] fix: a failed handshake stays failed

---
 conn.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/conn.go b/conn.go
index 62bce5c..06604de 100644
--- a/conn.go
+++ b/conn.go
@@ -277,7 +277,7 @@ type Conn struct {
 }
 
 func NewConn(conn net.Conn, config *Config, isClient bool) *Conn {
-	c := &Conn{conn: conn, config: config, isClient: isClient, hsCtx: &HandshakeContext{}}
+	c := &Conn{conn: conn, config: config, isClient: isClient, hsCtx: &HandshakeContext{}, handshakeAlert: AlertNoAlert}
 	if !config.UseDTLS {
 		if config.RecordLayer == nil {
 			c.in = NewRecordLayerTLS(c.conn, DirectionRead)
@@ -766,21 +766,25 @@ func (r *handshakeMessageReaderImpl) ReadMessage() (*HandshakeMessage, Alert) {
 // Handshake causes a TLS handshake on the connection.  The `isClient` member
 // determines whether a client or server handshake is performed.  If a
 // handshake has already been performed, then its result will be returned.
-func (c *Conn) Handshake() Alert {
+func (c *Conn) Handshake() (result Alert) {
 	label := "[server]"
 	if c.isClient {
 		label = "[client]"
 	}
 
 	// TODO Lock handshakeMutex
-	// TODO Remove CloseNotify hack
-	if c.handshakeAlert != AlertNoAlert && c.handshakeAlert != AlertCloseNotify {
+	if c.handshakeAlert != AlertNoAlert {
 		logf(logTypeHandshake, "Pre-existing handshake error: %v", c.handshakeAlert)
 		return c.handshakeAlert
 	}
 	if c.handshakeComplete {
 		return AlertNoAlert
 	}
+	defer func() {
+		if result != AlertWouldBlock && result != AlertStatelessRetry {
+			c.handshakeAlert = result
+		}
+	}()
 
 	if c.hState == nil {
 		logf(logTypeHandshake, "%s First time through handshake (or after stateless retry), setting up", label)
-- 
2.43.0


From 4a7c62a1db856a2f3a99347a6dd36fd5c2d61a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:10 +0000
Subject: [PATCH 31/70] fix: read nothing after the peer's fatal alert or
 close_notify

---
 conn.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/conn.go b/conn.go
index 06604de..df40b81 100644
--- a/conn.go
+++ b/conn.go
@@ -272,6 +272,7 @@ type Conn struct {
 	handshakeComplete bool
 
 	readBuffer []byte
+	readError  error // Why the peer will not send any more
 	in, out    RecordLayer
 	hsCtx      *HandshakeContext
 }
@@ -395,14 +396,16 @@ func (c *Conn) consumeRecord() error {
 			return io.EOF
 		}
 		if Alert(pt.fragment[1]) == AlertCloseNotify {
-			return io.EOF
+			c.readError = io.EOF
+			return c.readError
 		}
 
 		switch pt.fragment[0] {
 		case AlertLevelWarning:
 			// drop on the floor
 		case AlertLevelError:
-			return receivedAlert(pt.fragment[1])
+			c.readError = receivedAlert(pt.fragment[1])
+			return c.readError
 		default:
 			c.sendAlert(AlertUnexpectedMessage)
 			return io.EOF
@@ -479,6 +482,9 @@ func (c *Conn) Read(buffer []byte) (int, error) {
 	c.in.Lock()
 	defer c.in.Unlock()
 	for len(c.readBuffer) == 0 {
+		if c.readError != nil {
+			return 0, c.readError
+		}
 		err := c.consumeRecord()
 
 		// err can be nil if consumeRecord processed a non app-data
-- 
2.43.0


From 3ec3d546630287aa25a383d59148adf15ec4f1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:11 +0000
Subject: [PATCH 32/70] fix: do not offer or accept expired tickets

---
 client-state-machine.go | 2 +-
 conn.go                 | 5 +++++
 negotiation.go          | 4 ++++
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index d8a713b..81a2bd9 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -163,7 +163,7 @@ func (state clientStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 	var earlySecret []byte
 	var clientEarlyTrafficKeys KeySet
 	var clientHello *HandshakeMessage
-	if key, ok := state.Config.PSKs.Get(state.Opts.ServerName); ok {
+	if key, ok := state.Config.PSKs.Get(state.Opts.ServerName); ok && !key.expired() {
 		offeredPSK = key
 
 		// Narrow ciphersuites to ones that match PSK hash
diff --git a/conn.go b/conn.go
index df40b81..e62c9f7 100644
--- a/conn.go
+++ b/conn.go
@@ -29,6 +29,11 @@ type PreSharedKey struct {
 	TicketAgeAdd uint32
 }
 
+// A lifetime of zero means that the key doesn't expire
+func (psk PreSharedKey) expired() bool {
+	return psk.ExpiresAt.Sub(psk.ReceivedAt) >= time.Second && time.Now().After(psk.ExpiresAt)
+}
+
 type PreSharedKeyCache interface {
 	Get(string) (PreSharedKey, bool)
 	Put(string, PreSharedKey)
diff --git a/negotiation.go b/negotiation.go
index 7463953..fb1a589 100644
--- a/negotiation.go
+++ b/negotiation.go
@@ -62,6 +62,10 @@ func PSKNegotiation(identities []PSKIdentity, binders []PSKBinderEntry, context
 			logf(logTypeNegotiation, "No PSK for identity %x", identityHex)
 			continue
 		}
+		if psk.expired() {
+			logf(logTypeNegotiation, "PSK has expired %x", identityHex)
+			continue
+		}
 
 		// For resumption, make sure the ticket age is correct
 		if psk.IsResumption {
-- 
2.43.0


From c796eddc77f08c66583bc4a8ae44f8b766255590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:20 +0000
Subject: [PATCH 33/70] fix: Config.Clone copies the record layer factory

---
 conn.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/conn.go b/conn.go
index e62c9f7..446804e 100644
--- a/conn.go
+++ b/conn.go
@@ -174,6 +174,7 @@ func (c *Config) Clone() *Config {
 		PSKModes:              c.PSKModes,
 		NonBlocking:           c.NonBlocking,
 		UseDTLS:               c.UseDTLS,
+		RecordLayer:           c.RecordLayer,
 	}
 }
 
-- 
2.43.0


From def1f8e6f822b8c9d4fbc68aaa2eb1bf3f68100f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:31 +0000
Subject: [PATCH 34/70] fix: derive updated traffic secrets with the key update
 label

---
 crypto.go        | 1 +
 state-machine.go | 8 ++++----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/crypto.go b/crypto.go
index 12542c2..cd71c1d 100644
--- a/crypto.go
+++ b/crypto.go
@@ -547,6 +547,7 @@ const (
 	labelDerived                        = "derived"
 	labelFinished                       = "finished"
 	labelResumption                     = "resumption"
+	labelKeyUpdate                      = "traffic upd"
 )
 
 // struct HkdfLabel {
diff --git a/state-machine.go b/state-machine.go
index f0635c8..2f84323 100644
--- a/state-machine.go
+++ b/state-machine.go
@@ -114,11 +114,11 @@ func (state *stateConnected) KeyUpdate(request KeyUpdateRequest) ([]HandshakeAct
 	var trafficKeys KeySet
 	if state.isClient {
 		state.clientTrafficSecret = HkdfExpandLabel(state.cryptoParams.Hash, state.clientTrafficSecret,
-			labelClientApplicationTrafficSecret, []byte{}, state.cryptoParams.Hash.Size())
+			labelKeyUpdate, []byte{}, state.cryptoParams.Hash.Size())
 		trafficKeys = makeTrafficKeys(state.cryptoParams, state.clientTrafficSecret)
 	} else {
 		state.serverTrafficSecret = HkdfExpandLabel(state.cryptoParams.Hash, state.serverTrafficSecret,
-			labelServerApplicationTrafficSecret, []byte{}, state.cryptoParams.Hash.Size())
+			labelKeyUpdate, []byte{}, state.cryptoParams.Hash.Size())
 		trafficKeys = makeTrafficKeys(state.cryptoParams, state.serverTrafficSecret)
 	}
 
@@ -199,11 +199,11 @@ func (state stateConnected) ProcessMessage(hm *HandshakeMessage) (HandshakeState
 		var trafficKeys KeySet
 		if !state.isClient {
 			state.clientTrafficSecret = HkdfExpandLabel(state.cryptoParams.Hash, state.clientTrafficSecret,
-				labelClientApplicationTrafficSecret, []byte{}, state.cryptoParams.Hash.Size())
+				labelKeyUpdate, []byte{}, state.cryptoParams.Hash.Size())
 			trafficKeys = makeTrafficKeys(state.cryptoParams, state.clientTrafficSecret)
 		} else {
 			state.serverTrafficSecret = HkdfExpandLabel(state.cryptoParams.Hash, state.serverTrafficSecret,
-				labelServerApplicationTrafficSecret, []byte{}, state.cryptoParams.Hash.Size())
+				labelKeyUpdate, []byte{}, state.cryptoParams.Hash.Size())
 			trafficKeys = makeTrafficKeys(state.cryptoParams, state.serverTrafficSecret)
 		}
 
-- 
2.43.0


From d8843b0b06dec8095fa1cff990335f50d1d95f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:37 +0000
Subject: [PATCH 35/70] fix: exporter hashes the context

---
 conn.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 446804e..2721dfd 100644
--- a/conn.go
+++ b/conn.go
@@ -951,7 +951,9 @@ func (c *Conn) ComputeExporter(label string, context []byte, keyLength int) ([]b
 	h0 := c.state.cryptoParams.Hash.New().Sum(nil)
 	tmpSecret := deriveSecret(c.state.cryptoParams, c.state.exporterSecret, label, h0)
 
-	hc := c.state.cryptoParams.Hash.New().Sum(context)
+	h := c.state.cryptoParams.Hash.New()
+	h.Write(context)
+	hc := h.Sum(nil)
 	return HkdfExpandLabel(c.state.cryptoParams.Hash, tmpSecret, "exporter", hc, keyLength), nil
 }
 
-- 
2.43.0


From 612967e9f10b6d6173c855ad59119438afb4d1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:43 +0000
Subject: [PATCH 36/70] fix: keep the session ID when a ClientHello is
 marshaled

---
 handshake-messages.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/handshake-messages.go b/handshake-messages.go
index e8e3aef..54e66d7 100644
--- a/handshake-messages.go
+++ b/handshake-messages.go
@@ -60,7 +60,7 @@ func (ch ClientHelloBody) Marshal() ([]byte, error) {
 		return syntax.Marshal(clientHelloBodyInnerTLS{
 			LegacyVersion:            ch.LegacyVersion,
 			Random:                   ch.Random,
-			LegacySessionID:          []byte{},
+			LegacySessionID:          ch.LegacySessionID,
 			CipherSuites:             ch.CipherSuites,
 			LegacyCompressionMethods: []byte{0},
 			Extensions:               ch.Extensions,
@@ -69,7 +69,7 @@ func (ch ClientHelloBody) Marshal() ([]byte, error) {
 		return syntax.Marshal(clientHelloBodyInnerDTLS{
 			LegacyVersion:            ch.LegacyVersion,
 			Random:                   ch.Random,
-			LegacySessionID:          []byte{},
+			LegacySessionID:          ch.LegacySessionID,
 			CipherSuites:             ch.CipherSuites,
 			LegacyCompressionMethods: []byte{0},
 			Extensions:               ch.Extensions,
-- 
2.43.0


From 131ea0de600a666309fe9d2e1b4c831ceef90480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:14 +0000
Subject: [PATCH 37/70] fix: sign a client's CertificateVerify with the client
 context string

---
 client-state-machine.go |  2 +-
 handshake-messages.go   | 24 +++++++++++++++++++-----
 server-state-machine.go |  2 +-
 3 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index 81a2bd9..8f0b9e7 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -1049,7 +1049,7 @@ func (state clientStateWaitFinished) Next(hr handshakeMessageReader) (HandshakeS
 			certificateVerify := &CertificateVerifyBody{Algorithm: certScheme}
 			logf(logTypeHandshake, "Creating CertVerify: %04x %v", certScheme, state.cryptoParams.Hash)
 
-			err = certificateVerify.Sign(cert.PrivateKey, hcv)
+			err = certificateVerify.sign(contextClientCertificateVerify, cert.PrivateKey, hcv)
 			if err != nil {
 				logf(logTypeHandshake, "[ClientStateWaitFinished] Error signing CertificateVerify [%v]", err)
 				return nil, nil, AlertInternalError
diff --git a/handshake-messages.go b/handshake-messages.go
index 54e66d7..c0f2617 100644
--- a/handshake-messages.go
+++ b/handshake-messages.go
@@ -351,10 +351,16 @@ func (cv *CertificateVerifyBody) Unmarshal(data []byte) (int, error) {
 	return syntax.Unmarshal(data, cv)
 }
 
+const (
+	contextServerCertificateVerify = "TLS 1.3, server CertificateVerify"
+	contextClientCertificateVerify = "TLS 1.3, client CertificateVerify"
+)
+
 func (cv *CertificateVerifyBody) EncodeSignatureInput(data []byte) []byte {
-	// TODO: Change context for client auth
-	// TODO: Put this in a const
-	const context = "TLS 1.3, server CertificateVerify"
+	return cv.encodeSignatureInput(contextServerCertificateVerify, data)
+}
+
+func (cv *CertificateVerifyBody) encodeSignatureInput(context string, data []byte) []byte {
 	sigInput := bytes.Repeat([]byte{0x20}, 64)
 	sigInput = append(sigInput, []byte(context)...)
 	sigInput = append(sigInput, []byte{0}...)
@@ -363,14 +369,22 @@ func (cv *CertificateVerifyBody) EncodeSignatureInput(data []byte) []byte {
 }
 
 func (cv *CertificateVerifyBody) Sign(privateKey crypto.Signer, handshakeHash []byte) (err error) {
-	sigInput := cv.EncodeSignatureInput(handshakeHash)
+	return cv.sign(contextServerCertificateVerify, privateKey, handshakeHash)
+}
+
+func (cv *CertificateVerifyBody) sign(context string, privateKey crypto.Signer, handshakeHash []byte) (err error) {
+	sigInput := cv.encodeSignatureInput(context, handshakeHash)
 	cv.Signature, err = sign(cv.Algorithm, privateKey, sigInput)
 	logf(logTypeHandshake, "Signed: alg=[%04x] sigInput=[%x], sig=[%x]", cv.Algorithm, sigInput, cv.Signature)
 	return
 }
 
 func (cv *CertificateVerifyBody) Verify(publicKey crypto.PublicKey, handshakeHash []byte) error {
-	sigInput := cv.EncodeSignatureInput(handshakeHash)
+	return cv.verify(contextServerCertificateVerify, publicKey, handshakeHash)
+}
+
+func (cv *CertificateVerifyBody) verify(context string, publicKey crypto.PublicKey, handshakeHash []byte) error {
+	sigInput := cv.encodeSignatureInput(context, handshakeHash)
 	logf(logTypeHandshake, "About to verify: alg=[%04x] sigInput=[%x], sig=[%x]", cv.Algorithm, sigInput, cv.Signature)
 	return verify(cv.Algorithm, publicKey, sigInput, cv.Signature)
 }
diff --git a/server-state-machine.go b/server-state-machine.go
index 67a7cfd..5e46639 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -1073,7 +1073,7 @@ func (state serverStateWaitCV) Next(hr handshakeMessageReader) (HandshakeState,
 	logf(logTypeHandshake, "Handshake Hash to be verified: [%d] %x", len(hcv), hcv)
 
 	clientPublicKey := state.clientCertificate.CertificateList[0].CertData.PublicKey
-	if err := certVerify.Verify(clientPublicKey, hcv); err != nil {
+	if err := certVerify.verify(contextClientCertificateVerify, clientPublicKey, hcv); err != nil {
 		logf(logTypeHandshake, "[ServerStateWaitCV] Failure in client auth verification [%v]", err)
 		return nil, nil, AlertHandshakeFailure
 	}
-- 
2.43.0


From 3faef3235f220fee035faa7713b49289a8bced0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:20 +0000
Subject: [PATCH 38/70] fix: ignore ChangeCipherSpec records during the TLS
 handshake

---
 common.go       | 9 +++++----
 record-layer.go | 7 +++++++
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/common.go b/common.go
index 4d6477a..a96aa06 100644
--- a/common.go
+++ b/common.go
@@ -22,10 +22,11 @@ var (
 type RecordType byte
 
 const (
-	RecordTypeAlert           RecordType = 21
-	RecordTypeHandshake       RecordType = 22
-	RecordTypeApplicationData RecordType = 23
-	RecordTypeAck             RecordType = 25
+	RecordTypeChangeCipherSpec RecordType = 20
+	RecordTypeAlert            RecordType = 21
+	RecordTypeHandshake        RecordType = 22
+	RecordTypeApplicationData  RecordType = 23
+	RecordTypeAck              RecordType = 25
 )
 
 // enum {...} HandshakeType;
diff --git a/record-layer.go b/record-layer.go
index 9011f51..5e96609 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -360,6 +360,13 @@ func (r *DefaultRecordLayer) nextRecord(allowOldEpoch bool) (*TLSPlaintext, erro
 			return nil, err
 		}
 
+		// Peers in middlebox compatibility mode send these during the handshake
+		if !r.datagram && RecordType(header[0]) == RecordTypeChangeCipherSpec &&
+			r.cipher.epoch < EpochApplicationData && len(body) == 1 && body[0] == 1 {
+			logf(logTypeIO, "%s Ignoring ChangeCipherSpec", r.label)
+			continue
+		}
+
 		pt, err := r.processFrame(header, body, allowOldEpoch)
 		if err == nil || !r.datagram {
 			return pt, err
-- 
2.43.0


From 25b71ca892d8d893af7cc1dbddecf9b61c1e3e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:21 +0000
Subject: [PATCH 39/70] fix: client rejects early data and application
 protocols that it did not offer

---
 client-state-machine.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/client-state-machine.go b/client-state-machine.go
index 8f0b9e7..c235788 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -626,9 +626,22 @@ func (state clientStateWaitEE) Next(hr handshakeMessageReader) (HandshakeState,
 	}
 
 	state.Params.UsingEarlyData = foundExts[ExtensionTypeEarlyData]
+	if state.Params.UsingEarlyData && !(state.Params.ClientSendingEarlyData && state.Params.UsingPSK) {
+		logf(logTypeHandshake, "[ClientStateWaitEE] Server accepted early data that was not offered or has no key")
+		return nil, nil, AlertIllegalParameter
+	}
 
 	if foundExts[ExtensionTypeALPN] && len(serverALPN.Protocols) > 0 {
 		state.Params.NextProto = serverALPN.Protocols[0]
+
+		offered := false
+		for _, proto := range state.Config.NextProtos {
+			offered = offered || proto == state.Params.NextProto
+		}
+		if !offered {
+			logf(logTypeHandshake, "[ClientStateWaitEE] Server selected a protocol that was not offered")
+			return nil, nil, AlertIllegalParameter
+		}
 	}
 
 	state.handshakeHash.Write(hm.Marshal())
-- 
2.43.0


From 739835c7a1e1fe4a43088f6fb7c4bce73763dbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:27 +0000
Subject: [PATCH 40/70] fix: accept early data only under the first PSK and not
 after a retry

---
 server-state-machine.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server-state-machine.go b/server-state-machine.go
index 5e46639..7be8907 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -369,7 +369,10 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 	// Figure out if we're going to do early data
 	var clientEarlyTrafficSecret []byte
 	connParams.ClientSendingEarlyData = foundExts[ExtensionTypeEarlyData]
-	connParams.UsingEarlyData, connParams.RejectedEarlyData = EarlyDataNegotiation(connParams.UsingPSK, foundExts[ExtensionTypeEarlyData], state.Config.AllowEarlyData)
+	connParams.UsingEarlyData, connParams.RejectedEarlyData = EarlyDataNegotiation(
+		// Early data is sent under the first PSK, in reply to no retry
+		connParams.UsingPSK && selectedPSK == 0 && !clientSentCookie,
+		foundExts[ExtensionTypeEarlyData], state.Config.AllowEarlyData)
 	if connParams.UsingEarlyData {
 		h := params.Hash.New()
 		h.Write(clientHello.Marshal())
-- 
2.43.0


From 22ed14b6ede1fc16fee148309c8a6416fb2c6c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:20 +0000
Subject: [PATCH 41/70] fix: make PSKMapCache safe for connections that share a
 Config

---
 conn.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/conn.go b/conn.go
index 2721dfd..b192501 100644
--- a/conn.go
+++ b/conn.go
@@ -54,16 +54,25 @@ type CookieHandler interface {
 
 type PSKMapCache map[string]PreSharedKey
 
+// Connections that share a Config use its cache concurrently
+var pskMapCacheMutex sync.RWMutex
+
 func (cache PSKMapCache) Get(key string) (psk PreSharedKey, ok bool) {
+	pskMapCacheMutex.RLock()
+	defer pskMapCacheMutex.RUnlock()
 	psk, ok = cache[key]
 	return
 }
 
 func (cache *PSKMapCache) Put(key string, psk PreSharedKey) {
+	pskMapCacheMutex.Lock()
+	defer pskMapCacheMutex.Unlock()
 	(*cache)[key] = psk
 }
 
 func (cache PSKMapCache) Size() int {
+	pskMapCacheMutex.RLock()
+	defer pskMapCacheMutex.RUnlock()
 	return len(cache)
 }
 
-- 
2.43.0


From adec8c24b50ee298f51519356344751566cbc29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:40 +0000
Subject: [PATCH 42/70] fix: repeat the random and key shares after a
 HelloRetryRequest

---
 client-state-machine.go | 43 ++++++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index c235788..ce3f100 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -59,6 +59,11 @@ type clientStateStart struct {
 	firstClientHello  *HandshakeMessage
 	helloRetryRequest *HandshakeMessage
 	hsCtx             *HandshakeContext
+
+	// What a ClientHello in reply to a HelloRetryRequest repeats
+	random    [32]byte
+	keyShares []KeyShareEntry
+	offeredDH map[NamedGroup][]byte
 }
 
 var _ HandshakeState = &clientStateStart{}
@@ -74,16 +79,20 @@ func (state clientStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 		HandshakeType: HandshakeTypeClientHello,
 		Shares:        make([]KeyShareEntry, len(state.Config.Groups)),
 	}
-	for i, group := range state.Config.Groups {
-		pub, priv, err := newKeyShare(group)
-		if err != nil {
-			logf(logTypeHandshake, "[ClientStateStart] Error generating key share [%v]", err)
-			return nil, nil, AlertInternalError
-		}
+	if state.helloRetryRequest != nil {
+		ks.Shares, offeredDH = state.keyShares, state.offeredDH
+	} else {
+		for i, group := range state.Config.Groups {
+			pub, priv, err := newKeyShare(group)
+			if err != nil {
+				logf(logTypeHandshake, "[ClientStateStart] Error generating key share [%v]", err)
+				return nil, nil, AlertInternalError
+			}
 
-		ks.Shares[i].Group = group
-		ks.Shares[i].KeyExchange = pub
-		offeredDH[group] = priv
+			ks.Shares[i].Group = group
+			ks.Shares[i].KeyExchange = pub
+			offeredDH[group] = priv
+		}
 	}
 
 	logf(logTypeHandshake, "opts: %+v", state.Opts)
@@ -107,8 +116,10 @@ func (state clientStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 		LegacyVersion: wireVersion(state.hsCtx.hIn),
 		CipherSuites:  state.Config.CipherSuites,
 	}
-	_, err := prng.Read(ch.Random[:])
-	if err != nil {
+	var err error
+	if state.helloRetryRequest != nil {
+		ch.Random = state.random
+	} else if _, err = prng.Read(ch.Random[:]); err != nil {
 		logf(logTypeHandshake, "[ClientStateStart] Error creating ClientHello random [%v]", err)
 		return nil, nil, AlertInternalError
 	}
@@ -286,6 +297,9 @@ func (state clientStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 		firstClientHello:  state.firstClientHello,
 		helloRetryRequest: state.helloRetryRequest,
 		clientHello:       clientHello,
+
+		random:    ch.Random,
+		keyShares: ks.Shares,
 	}
 
 	toSend := []HandshakeAction{
@@ -316,6 +330,9 @@ type clientStateWaitSH struct {
 	firstClientHello  *HandshakeMessage
 	helloRetryRequest *HandshakeMessage
 	clientHello       *HandshakeMessage
+
+	random    [32]byte
+	keyShares []KeyShareEntry
 }
 
 var _ HandshakeState = &clientStateWaitSH{}
@@ -436,6 +453,10 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 			cookie:            serverCookie.Cookie,
 			firstClientHello:  firstClientHello,
 			helloRetryRequest: hm,
+
+			random:    state.random,
+			keyShares: state.keyShares,
+			offeredDH: state.OfferedDH,
 		}, []HandshakeAction{ResetOut{1}}, AlertNoAlert
 	}
 
-- 
2.43.0


From fcde36fbe3004290d46533990b814858779639d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:23 +0000
Subject: [PATCH 43/70] fix: a server that rejects early data goes on to the
 client's second flight

The state that skips rejected early data was its own successor, so such a
handshake never ended.
---
 server-state-machine.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server-state-machine.go b/server-state-machine.go
index 7be8907..51105bb 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -770,9 +770,10 @@ func (state serverStateNegotiated) Next(_ handshakeMessageReader) (HandshakeStat
 		exporterSecret:               exporterSecret,
 	}
 	if state.Params.RejectedEarlyData {
+		waitFlight2 := nextState
 		nextState = serverStateReadPastEarlyData{
 			hsCtx: state.hsCtx,
-			next:  &nextState,
+			next:  &waitFlight2,
 		}
 	}
 	return nextState, toSend, AlertNoAlert
-- 
2.43.0


From 3614640d785a5f13450c2a5c591a75e828e175fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:11 +0000
Subject: [PATCH 44/70] fix: ignore full-size early data records before a
 second ClientHello

---
 record-layer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/record-layer.go b/record-layer.go
index 5e96609..4cf8523 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -483,8 +483,10 @@ func (r *DefaultRecordLayer) processFrame(header, body []byte, allowOldEpoch boo
 	pt.epoch = cipher.epoch
 	pt.seq = seq
 
-	// Check that plaintext length is not too long
-	if len(pt.fragment) > maxFragmentLen {
+	// Check that plaintext length is not too long.  Application data that arrives
+	// before there are keys is ciphertext, early data that we can't read.
+	earlyData := cipher.cipher == nil && pt.contentType == RecordTypeApplicationData
+	if len(pt.fragment) > maxFragmentLen && !earlyData {
 		return nil, fmt.Errorf("tls.record: Plaintext size too big")
 	}
 
-- 
2.43.0


From dbc0bb4ee3079ea58bea7ad34b60f38cb17e55f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:16 +0000
Subject: [PATCH 45/70] fix: a server accepts key shares for groups that it
 doesn't know

---
 extensions.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/extensions.go b/extensions.go
index 07cb16c..5199bd9 100644
--- a/extensions.go
+++ b/extensions.go
@@ -266,7 +266,9 @@ func (ks *KeyShareExtension) Unmarshal(data []byte) (int, error) {
 		}
 
 		for _, share := range inner.ClientShares {
-			if !share.SizeValid() {
+			// Clients can support groups that we don't know
+			known := keyExchangeSizeFromNamedGroup(share.Group) != 0
+			if known && !share.SizeValid() {
 				return 0, fmt.Errorf("tls.keyshare: Key share has wrong size for group")
 			}
 		}
-- 
2.43.0


From 16cb2bc63a03d265844936708893b94de6ec75f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:21 +0000
Subject: [PATCH 46/70] fix: resume a session that had no application protocol

---
 negotiation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/negotiation.go b/negotiation.go
index fb1a589..8c9e28b 100644
--- a/negotiation.go
+++ b/negotiation.go
@@ -215,7 +215,7 @@ func ALPNNegotiation(psk *PreSharedKey, offered, supported []string) (string, er
 
 	// If the client offers ALPN on resumption, it must match the earlier one
 	var err error
-	if psk != nil && psk.IsResumption && (len(offered) > 0) {
+	if psk != nil && psk.IsResumption && psk.NextProto != "" && (len(offered) > 0) {
 		err = fmt.Errorf("ALPN for PSK not provided")
 	}
 	return "", err
-- 
2.43.0


From 81f0b7920a5b2798fce94e6b5dbc47210dc682fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:18 +0000
Subject: [PATCH 47/70] fix: give DTLS records a version before negotiation, so
 that a server can send a HelloRetryRequest or alert

---
 record-layer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/record-layer.go b/record-layer.go
index 4cf8523..3cd7a7b 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -162,6 +162,7 @@ func NewRecordLayerDTLS(conn io.ReadWriter, dir Direction) *DefaultRecordLayer {
 	r.readCiphers[0] = r.cipher
 	r.clearCipher = r.cipher
 	r.datagram = true
+	r.version = tls12Version
 	return &r
 }
 
-- 
2.43.0


From a2160f346d4723111a2c0602f343754aca794b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:15 +0000
Subject: [PATCH 48/70] fix: DTLS early data and EndOfEarlyData that arrive out
 of order do not fail the handshake

---
 handshake-layer.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/handshake-layer.go b/handshake-layer.go
index 3874167..b35c010 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -199,6 +199,14 @@ func (h *HandshakeLayer) readRecord() error {
 		if h.skipEarlyData {
 			return nil
 		}
+		if h.datagram && pt.epoch == EpochEarlyData {
+			// Datagrams arrive in any order, so this can turn up with the
+			// other messages or after the end of early data.
+			if h.conn.Epoch() == EpochEarlyData {
+				h.ctx.earlyData = append(h.ctx.earlyData, pt.fragment...)
+			}
+			return nil
+		}
 		fallthrough
 	default:
 		return fmt.Errorf("tls.handshakelayer: Unexpected record type %d", pt.contentType)
@@ -225,7 +233,7 @@ func (h *HandshakeLayer) readRecord() error {
 	if pt.epoch != h.ctx.hIn.conn.Epoch() {
 		// This is out of order but we're dropping it.
 		// TODO(ekr@rtfm.com): If server, need to retransmit Finished.
-		if pt.epoch == EpochClear || pt.epoch == EpochHandshakeData {
+		if pt.epoch == EpochClear || pt.epoch == EpochEarlyData || pt.epoch == EpochHandshakeData {
 			return nil
 		}
 
-- 
2.43.0


From 35841015893e83d42e221f19621a308f201e2439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:37 +0000
Subject: [PATCH 49/70] fix: TLS writes keep failing after a record was not
 written whole

---
 record-layer.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/record-layer.go b/record-layer.go
index 3cd7a7b..4b25476 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -96,6 +96,7 @@ type DefaultRecordLayer struct {
 	nextData     []byte        // The next record to send
 	cachedRecord *TLSPlaintext // Last record read, cached to enable "peek"
 	cachedError  error         // Error on the last record read
+	writeError   error         // Why a record could not be written (TLS only)
 
 	cipher      *cipherState
 	clearCipher *cipherState // The cipher of the clear epoch
@@ -507,6 +508,10 @@ func (r *DefaultRecordLayer) WriteRecordWithPadding(pt *TLSPlaintext, padLen int
 }
 
 func (r *DefaultRecordLayer) writeRecordWithPadding(pt *TLSPlaintext, cipher *cipherState, padLen int) error {
+	if r.writeError != nil {
+		return r.writeError
+	}
+
 	seq := cipher.combineSeq(r.datagram)
 	length := len(pt.fragment)
 	var contentType RecordType
@@ -553,5 +558,10 @@ func (r *DefaultRecordLayer) writeRecordWithPadding(pt *TLSPlaintext, cipher *ci
 
 	cipher.incrementSequenceNumber()
 	_, err := r.conn.Write(record)
+	if err != nil && !r.datagram {
+		// The peer can't make sense of anything after a record that is missing
+		// or incomplete.
+		r.writeError = err
+	}
 	return err
 }
-- 
2.43.0


From 422b3a2d213594e8ad00d2405ea81fa5ff1cba28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:07 +0000
Subject: [PATCH 50/70] fix: data that the transport returns together with an
 error is not dropped

---
 record-layer.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/record-layer.go b/record-layer.go
index 4b25476..a888e40 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -96,6 +96,7 @@ type DefaultRecordLayer struct {
 	nextData     []byte        // The next record to send
 	cachedRecord *TLSPlaintext // Last record read, cached to enable "peek"
 	cachedError  error         // Error on the last record read
+	readError    error         // The transport's error, once its data is used up
 	writeError   error         // Why a record could not be written (TLS only)
 
 	cipher      *cipherState
@@ -395,13 +396,18 @@ func (r *DefaultRecordLayer) nextFrame() (header, body []byte, err error) {
 				r.frame = newFrameReader(r.frame.details)
 			}
 			buf := make([]byte, r.frame.details.headerLen()+maxFragmentLen)
-			n, err := r.conn.Read(buf)
-			if err != nil {
+			n, err := 0, r.readError
+			if err == nil {
+				n, err = r.conn.Read(buf)
+			}
+			r.readError = nil
+			if n > 0 {
+				// An io.Reader may return data together with an error
+				r.readError = err
+			} else if err != nil {
 				logf(logTypeIO, "%s Error reading, %v", r.label, err)
 				return nil, nil, err
-			}
-
-			if n == 0 {
+			} else {
 				return nil, nil, AlertWouldBlock
 			}
 
-- 
2.43.0


From a544d2b34ddde062708677f36df49148cab21e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:03 +0000
Subject: [PATCH 51/70] fix: the close alert of a failed handshake takes the
 output lock

---
 conn.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/conn.go b/conn.go
index b192501..5b0dd09 100644
--- a/conn.go
+++ b/conn.go
@@ -838,7 +838,9 @@ func (c *Conn) Handshake() (result Alert) {
 		}
 		if alert == AlertCloseNotify {
 			logf(logTypeHandshake, "%s Error reading message: %s", label, alert)
+			c.out.Lock()
 			c.sendAlert(AlertCloseNotify)
+			c.out.Unlock()
 			return AlertCloseNotify
 		}
 		if alert != AlertNoAlert && alert != AlertStatelessRetry {
-- 
2.43.0


From 10a6cbf052c04c587f233ea30bdfe1a90688dfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:52 +0000
Subject: [PATCH 52/70] fix: Read and Write report a failed handshake instead
 of going on with early data

---
 conn.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/conn.go b/conn.go
index 5b0dd09..dc75312 100644
--- a/conn.go
+++ b/conn.go
@@ -455,6 +455,11 @@ func readPartial(in *[]byte, buffer []byte) int {
 // are consumed by the Conn object directly.
 func (c *Conn) Read(buffer []byte) (int, error) {
 	if _, connected := c.hState.(stateConnected); !connected {
+		// Early data does not outlive a failed handshake.
+		if c.handshakeAlert != AlertNoAlert {
+			return 0, c.handshakeAlert
+		}
+
 		// Clients can't call Read prior to handshake completion.
 		if c.isClient {
 			return 0, errors.New("Read called before the handshake completed")
@@ -521,6 +526,10 @@ func (c *Conn) Write(buffer []byte) (int, error) {
 	c.out.Lock()
 	defer c.out.Unlock()
 
+	if c.handshakeAlert != AlertNoAlert {
+		return 0, c.handshakeAlert
+	}
+
 	if !c.Writable() {
 		return 0, errors.New("Write called before the handshake completed (and early data not in use)")
 	}
-- 
2.43.0


From 373bd53bf83ab7992810ec1088b43dca41b2ffda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:54 +0000
Subject: [PATCH 53/70] fix: early data read while the handshake completes is
 neither lost nor reordered

---
 conn.go                 | 25 +++++++++++++++----------
 handshake-layer.go      |  2 +-
 server-state-machine.go |  2 +-
 state-machine.go        |  8 ++++++++
 4 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/conn.go b/conn.go
index dc75312..d625b00 100644
--- a/conn.go
+++ b/conn.go
@@ -454,7 +454,10 @@ func readPartial(in *[]byte, buffer []byte) int {
 // Read application data up to the size of buffer.  Handshake and alert records
 // are consumed by the Conn object directly.
 func (c *Conn) Read(buffer []byte) (int, error) {
+	c.hsCtx.earlyMutex.Lock()
 	if _, connected := c.hState.(stateConnected); !connected {
+		defer c.hsCtx.earlyMutex.Unlock()
+
 		// Early data does not outlive a failed handshake.
 		if c.handshakeAlert != AlertNoAlert {
 			return 0, c.handshakeAlert
@@ -478,6 +481,8 @@ func (c *Conn) Read(buffer []byte) (int, error) {
 		return readPartial(&c.hsCtx.earlyData, buffer), nil
 	}
 
+	c.hsCtx.earlyMutex.Unlock()
+
 	// The handshake is now connected.
 	logf(logTypeHandshake, "conn.Read with buffer = %d", len(buffer))
 	if alert := c.Handshake(); alert != AlertNoAlert {
@@ -870,9 +875,18 @@ func (c *Conn) Handshake() (result Alert) {
 			}
 		}
 
+		// If there is early data, move it into the main buffer before Read
+		// can see that the handshake is complete.
+		_, connected = state.(stateConnected)
+		c.hsCtx.earlyMutex.Lock()
+		if connected && c.hsCtx.earlyData != nil {
+			assert(!c.isClient)
+			c.readBuffer = c.hsCtx.earlyData
+			c.hsCtx.earlyData = nil
+		}
 		c.hState = state
+		c.hsCtx.earlyMutex.Unlock()
 		logf(logTypeHandshake, "state is now %s", c.GetHsState())
-		_, connected = state.(stateConnected)
 		if connected {
 			c.state = state.(stateConnected)
 			c.handshakeComplete = true
@@ -895,15 +909,6 @@ func (c *Conn) Handshake() (result Alert) {
 						}
 					}
 				}
-
-				// If there is early data, move it into the main buffer
-				if c.hsCtx.earlyData != nil {
-					c.readBuffer = c.hsCtx.earlyData
-					c.hsCtx.earlyData = nil
-				}
-
-			} else {
-				assert(c.hsCtx.earlyData == nil)
 			}
 		}
 		c.out.Unlock()
diff --git a/handshake-layer.go b/handshake-layer.go
index b35c010..35ff37b 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -203,7 +203,7 @@ func (h *HandshakeLayer) readRecord() error {
 			// Datagrams arrive in any order, so this can turn up with the
 			// other messages or after the end of early data.
 			if h.conn.Epoch() == EpochEarlyData {
-				h.ctx.earlyData = append(h.ctx.earlyData, pt.fragment...)
+				h.ctx.addEarlyData(pt.fragment)
 			}
 			return nil
 		}
diff --git a/server-state-machine.go b/server-state-machine.go
index 51105bb..6a84ea7 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -828,7 +828,7 @@ func (state serverStateWaitEOED) Next(hr handshakeMessageReader) (HandshakeState
 		}
 
 		logf(logTypeHandshake, "Server read early data: %x", pt.fragment)
-		state.hsCtx.earlyData = append(state.hsCtx.earlyData, pt.fragment...)
+		state.hsCtx.addEarlyData(pt.fragment)
 	}
 
 	hm, alert := hr.ReadMessage()
diff --git a/state-machine.go b/state-machine.go
index 2f84323..19f2e71 100644
--- a/state-machine.go
+++ b/state-machine.go
@@ -2,6 +2,7 @@ package mint
 
 import (
 	"crypto/x509"
+	"sync"
 	"time"
 )
 
@@ -75,9 +76,16 @@ type HandshakeContext struct {
 	sentFragments     []*SentHandshakeFragment
 	hIn, hOut         *HandshakeLayer
 	waitingNextFlight bool
+	earlyMutex        sync.Mutex // Early data can be read while the handshake runs
 	earlyData         []byte
 }
 
+func (hc *HandshakeContext) addEarlyData(data []byte) {
+	hc.earlyMutex.Lock()
+	defer hc.earlyMutex.Unlock()
+	hc.earlyData = append(hc.earlyData, data...)
+}
+
 func (hc *HandshakeContext) SetVersion(version uint16) {
 	if hc.hIn.conn != nil {
 		hc.hIn.conn.SetVersion(version)
-- 
2.43.0


From 6f36921db3dde84c81f9a7295da7d230ccb1a0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:09 +0000
Subject: [PATCH 54/70] fix: a ticket of the wrong age is passed over, and ages
 compare modulo 2^32

---
 negotiation.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/negotiation.go b/negotiation.go
index 8c9e28b..90013ab 100644
--- a/negotiation.go
+++ b/negotiation.go
@@ -71,15 +71,16 @@ func PSKNegotiation(identities []PSKIdentity, binders []PSKBinderEntry, context
 		if psk.IsResumption {
 			extTicketAge := id.ObfuscatedTicketAge - psk.TicketAgeAdd
 			knownTicketAge := uint32(time.Since(psk.ReceivedAt) / time.Millisecond)
+			// Ages are numbers modulo 2^32, and either may be the greater
 			ticketAgeDelta := knownTicketAge - extTicketAge
-			if knownTicketAge < extTicketAge {
+			if int32(ticketAgeDelta) < 0 {
 				ticketAgeDelta = extTicketAge - knownTicketAge
 			}
 			if ticketAgeDelta > ticketAgeTolerance {
 				logf(logTypeNegotiation, "WARNING potential replay [%x]", psk.Identity)
 				logf(logTypeNegotiation, "Ticket age exceeds tolerance |%d - %d| = [%d] > [%d]",
 					extTicketAge, knownTicketAge, ticketAgeDelta, ticketAgeTolerance)
-				return false, 0, nil, CipherSuiteParams{}, fmt.Errorf("WARNING Potential replay for identity %x", psk.Identity)
+				continue
 			}
 		}
 
-- 
2.43.0


From 629e4ffa382d880cdce806290f8a365f7bdf402d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:25 +0000
Subject: [PATCH 55/70] fix: DTLS post-handshake messages are processed once

---
 conn.go          |  9 +++++++++
 state-machine.go | 14 ++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/conn.go b/conn.go
index d625b00..91232b6 100644
--- a/conn.go
+++ b/conn.go
@@ -372,6 +372,15 @@ func (c *Conn) consumeRecord() error {
 			}
 			hm.body = pt.fragment[start+headerLen : start+headerLen+hmLen]
 
+			if c.config.UseDTLS {
+				seq := uint32(pt.fragment[start+4])<<8 | uint32(pt.fragment[start+5])
+				if !c.hsCtx.firstReceipt(pt.epoch, seq) {
+					// Our ACK for it was lost
+					start += headerLen + hmLen
+					continue
+				}
+			}
+
 			// XXX: If we want to support more advanced cases, e.g., post-handshake
 			// authentication, we'll need to allow transitions other than
 			// Connected -> Connected
diff --git a/state-machine.go b/state-machine.go
index 19f2e71..a33c87b 100644
--- a/state-machine.go
+++ b/state-machine.go
@@ -78,6 +78,20 @@ type HandshakeContext struct {
 	waitingNextFlight bool
 	earlyMutex        sync.Mutex // Early data can be read while the handshake runs
 	earlyData         []byte
+
+	// The post-handshake messages received in the current epoch (DTLS)
+	postHandshakeEpoch Epoch
+	postHandshakeSeqs  map[uint32]bool
+}
+
+// firstReceipt notes a post-handshake message, and says whether it is new.
+func (hc *HandshakeContext) firstReceipt(epoch Epoch, seq uint32) bool {
+	if hc.postHandshakeSeqs == nil || epoch != hc.postHandshakeEpoch {
+		hc.postHandshakeEpoch, hc.postHandshakeSeqs = epoch, map[uint32]bool{}
+	}
+	first := !hc.postHandshakeSeqs[seq]
+	hc.postHandshakeSeqs[seq] = true
+	return first
 }
 
 func (hc *HandshakeContext) addEarlyData(data []byte) {
-- 
2.43.0


From d5e7b8882572cf8dc74952132d45d741f11733ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:25 +0000
Subject: [PATCH 56/70] fix: the second ClientHello offers the PSK of the first

---
 client-state-machine.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index ce3f100..46adace 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -64,6 +64,7 @@ type clientStateStart struct {
 	random    [32]byte
 	keyShares []KeyShareEntry
 	offeredDH map[NamedGroup][]byte
+	psk       PreSharedKey
 }
 
 var _ HandshakeState = &clientStateStart{}
@@ -174,7 +175,11 @@ func (state clientStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 	var earlySecret []byte
 	var clientEarlyTrafficKeys KeySet
 	var clientHello *HandshakeMessage
-	if key, ok := state.Config.PSKs.Get(state.Opts.ServerName); ok && !key.expired() {
+	key, ok := state.Config.PSKs.Get(state.Opts.ServerName)
+	if state.helloRetryRequest != nil {
+		key, ok = state.psk, len(state.psk.Key) > 0
+	}
+	if ok && !key.expired() {
 		offeredPSK = key
 
 		// Narrow ciphersuites to ones that match PSK hash
@@ -457,6 +462,7 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 			random:    state.random,
 			keyShares: state.keyShares,
 			offeredDH: state.OfferedDH,
+			psk:       state.OfferedPSK,
 		}, []HandshakeAction{ResetOut{1}}, AlertNoAlert
 	}
 
-- 
2.43.0


From 513c0246cd113d3abf1077db79f97703d025c9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:05 +0000
Subject: [PATCH 57/70] fix: a reader does not wait for writers unless it has
 something to send

---
 conn.go | 40 ++++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/conn.go b/conn.go
index 91232b6..6d3dbcb 100644
--- a/conn.go
+++ b/conn.go
@@ -1,6 +1,7 @@
 package mint
 
 import (
+	"bytes"
 	"crypto"
 	"crypto/x509"
 	"encoding/hex"
@@ -283,6 +284,7 @@ type Conn struct {
 	state             stateConnected
 	hState            HandshakeState
 	handshakeMutex    sync.Mutex
+	stateMutex        sync.Mutex // protects state once the handshake is complete
 	handshakeAlert    Alert
 	handshakeComplete bool
 
@@ -334,10 +336,22 @@ func (c *Conn) consumeRecord() error {
 	}
 
 	// Anything but application data can make us send records or change the
-	// outgoing keys, while other threads are writing.
-	if pt.contentType != RecordTypeApplicationData {
-		c.out.Lock()
-		defer c.out.Unlock()
+	// outgoing keys, while other threads are writing. Wait for them only when
+	// it does: a writer can itself be waiting for us to read.
+	locked := false
+	lockOut := func() {
+		if !locked {
+			c.out.Lock()
+			locked = true
+		}
+	}
+	defer func() {
+		if locked {
+			c.out.Unlock()
+		}
+	}()
+	if c.config.UseDTLS && pt.contentType != RecordTypeApplicationData {
+		lockOut()
 	}
 
 	if c.config.UseDTLS && pt.epoch != c.in.Epoch() {
@@ -384,9 +398,19 @@ func (c *Conn) consumeRecord() error {
 			// XXX: If we want to support more advanced cases, e.g., post-handshake
 			// authentication, we'll need to allow transitions other than
 			// Connected -> Connected
+			if hm.msgType == HandshakeTypeKeyUpdate && bytes.Equal(hm.body, []byte{byte(KeyUpdateRequested)}) {
+				lockOut()
+			}
+			c.stateMutex.Lock()
 			state, actions, alert := c.state.ProcessMessage(hm)
+			var connected bool
+			if alert == AlertNoAlert {
+				c.state, connected = state.(stateConnected)
+			}
+			c.stateMutex.Unlock()
 			if alert != AlertNoAlert {
 				logf(logTypeHandshake, "Error in state transition: %v", alert)
+				lockOut()
 				c.sendAlert(alert)
 				return io.EOF
 			}
@@ -395,15 +419,15 @@ func (c *Conn) consumeRecord() error {
 				alert = c.takeAction(action)
 				if alert != AlertNoAlert {
 					logf(logTypeHandshake, "Error during handshake actions: %v", alert)
+					lockOut()
 					c.sendAlert(alert)
 					return io.EOF
 				}
 			}
 
-			var connected bool
-			c.state, connected = state.(stateConnected)
 			if !connected {
 				logf(logTypeHandshake, "Disconnected after state transition: %v", alert)
+				lockOut()
 				c.sendAlert(alert)
 				return io.EOF
 			}
@@ -416,6 +440,7 @@ func (c *Conn) consumeRecord() error {
 	case RecordTypeAlert:
 		logf(logTypeIO, "extended buffer (for alert): [%d] %x", len(c.readBuffer), c.readBuffer)
 		if len(pt.fragment) != 2 {
+			lockOut()
 			c.sendAlert(AlertUnexpectedMessage)
 			return io.EOF
 		}
@@ -431,6 +456,7 @@ func (c *Conn) consumeRecord() error {
 			c.readError = receivedAlert(pt.fragment[1])
 			return c.readError
 		default:
+			lockOut()
 			c.sendAlert(AlertUnexpectedMessage)
 			return io.EOF
 		}
@@ -947,7 +973,9 @@ func (c *Conn) SendKeyUpdate(requestUpdate bool) error {
 	}
 
 	// Create the key update and update state
+	c.stateMutex.Lock()
 	actions, alert := c.state.KeyUpdate(request)
+	c.stateMutex.Unlock()
 	if alert != AlertNoAlert {
 		c.sendAlert(alert)
 		return fmt.Errorf("Alert while generating key update: %v", alert)
-- 
2.43.0


From 29eb918b07259845615180c425e5c2ead23c3899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:06 +0000
Subject: [PATCH 58/70] fix: post-handshake messages may be split across
 records

---
 conn.go          | 42 +++++++++++++++++------------------
 frame-reader.go  |  5 +++++
 state-machine.go | 57 +++++++++++++++++++++++++++++++++++++++++++-----
 3 files changed, 77 insertions(+), 27 deletions(-)

diff --git a/conn.go b/conn.go
index 6d3dbcb..c71d773 100644
--- a/conn.go
+++ b/conn.go
@@ -365,32 +365,32 @@ func (c *Conn) consumeRecord() error {
 	switch pt.contentType {
 	case RecordTypeHandshake:
 		logf(logTypeHandshake, "Received post-handshake message")
-		// We do not support fragmentation of post-handshake handshake messages.
 		// TODO: Factor this more elegantly; coalesce with handshakeLayer.ReadMessage()
-		start := 0
-		headerLen := handshakeHeaderLenTLS
+		// Over TLS a message can go on in the next record.
+		frame := c.hsCtx.hIn.frame
 		if c.config.UseDTLS {
-			headerLen = handshakeHeaderLenDTLS
+			frame = newFrameReader(&handshakeLayerFrameDetails{true})
 		}
-		for start < len(pt.fragment) {
-			if len(pt.fragment[start:]) < headerLen {
-				return fmt.Errorf("Post-handshake handshake message too short for header")
+		frame.addChunk(pt.fragment)
+		for {
+			hdr, body, err := frame.process()
+			if err == AlertWouldBlock {
+				if c.config.UseDTLS && frame.pending() {
+					return fmt.Errorf("Post-handshake handshake message too short")
+				}
+				break
 			}
-
-			hm := &HandshakeMessage{}
-			hm.msgType = HandshakeType(pt.fragment[start])
-			hmLen := (int(pt.fragment[start+1]) << 16) + (int(pt.fragment[start+2]) << 8) + int(pt.fragment[start+3])
-
-			if len(pt.fragment[start+headerLen:]) < hmLen {
-				return fmt.Errorf("Post-handshake handshake message too short for body")
+			if err != nil {
+				lockOut()
+				c.sendAlert(AlertDecodeError)
+				return io.EOF
 			}
-			hm.body = pt.fragment[start+headerLen : start+headerLen+hmLen]
 
+			hm := &HandshakeMessage{msgType: HandshakeType(hdr[0]), body: body}
 			if c.config.UseDTLS {
-				seq := uint32(pt.fragment[start+4])<<8 | uint32(pt.fragment[start+5])
-				if !c.hsCtx.firstReceipt(pt.epoch, seq) {
-					// Our ACK for it was lost
-					start += headerLen + hmLen
+				hm = c.hsCtx.postHandshakeFragment(pt.epoch, hdr, body)
+				if hm == nil {
+					// Incomplete, or our ACK for it was lost
 					continue
 				}
 			}
@@ -431,8 +431,6 @@ func (c *Conn) consumeRecord() error {
 				c.sendAlert(alert)
 				return io.EOF
 			}
-
-			start += headerLen + hmLen
 		}
 		if c.config.UseDTLS {
 			return c.hsCtx.sendAckFor(pt)
@@ -698,7 +696,7 @@ func (c *Conn) takeAction(actionGeneric HandshakeAction) Alert {
 	case RekeyIn:
 		logf(logTypeHandshake, "%s Rekeying in to %s: %+v", label, action.epoch.label(), action.KeySet)
 		// Check that we don't have an input data in the handshake frame parser.
-		if len(c.hsCtx.hIn.frame.remainder) > 0 {
+		if len(c.hsCtx.hIn.frame.remainder) > 0 || !c.config.UseDTLS && c.hsCtx.hIn.frame.pending() {
 			logf(logTypeHandshake, "%s Rekey with data still in handshake buffers", label)
 			return AlertDecodeError
 		}
diff --git a/frame-reader.go b/frame-reader.go
index 4ccfc23..3f2f577 100644
--- a/frame-reader.go
+++ b/frame-reader.go
@@ -52,6 +52,11 @@ func (f *frameReader) needed() int {
 	return tmp
 }
 
+// pending says whether part of a frame has arrived.
+func (f *frameReader) pending() bool {
+	return f.state != kFrameReaderHdr || f.writeOffset > 0 || len(f.remainder) > 0
+}
+
 func (f *frameReader) addChunk(in []byte) {
 	// Append to the buffer.
 	logf(logTypeFrameReader, "Appending %v", len(in))
diff --git a/state-machine.go b/state-machine.go
index a33c87b..bed0eaf 100644
--- a/state-machine.go
+++ b/state-machine.go
@@ -2,6 +2,7 @@ package mint
 
 import (
 	"crypto/x509"
+	"sort"
 	"sync"
 	"time"
 )
@@ -82,16 +83,62 @@ type HandshakeContext struct {
 	// The post-handshake messages received in the current epoch (DTLS)
 	postHandshakeEpoch Epoch
 	postHandshakeSeqs  map[uint32]bool
+	postHandshakeParts map[uint32][]*HandshakeMessage
 }
 
-// firstReceipt notes a post-handshake message, and says whether it is new.
-func (hc *HandshakeContext) firstReceipt(epoch Epoch, seq uint32) bool {
+// postHandshakeFragment takes part of a message that arrives after the
+// handshake. It returns the message once it is complete, and only then.
+func (hc *HandshakeContext) postHandshakeFragment(epoch Epoch, hdr, body []byte) *HandshakeMessage {
 	if hc.postHandshakeSeqs == nil || epoch != hc.postHandshakeEpoch {
 		hc.postHandshakeEpoch, hc.postHandshakeSeqs = epoch, map[uint32]bool{}
+		hc.postHandshakeParts = nil
 	}
-	first := !hc.postHandshakeSeqs[seq]
-	hc.postHandshakeSeqs[seq] = true
-	return first
+	length, rest := decodeUint(hdr[1:], 3)
+	seq, rest := decodeUint(rest, 2)
+	offset, _ := decodeUint(rest, 3)
+	hm := &HandshakeMessage{
+		msgType:  HandshakeType(hdr[0]),
+		seq:      uint32(seq),
+		body:     body,
+		datagram: true,
+		offset:   uint32(offset),
+		length:   uint32(length),
+	}
+	if hc.postHandshakeSeqs[hm.seq] || length > maxReceivedMessageLen || offset+uint64(len(body)) > length {
+		return nil
+	}
+
+	// Keep the parts of each message ordered, and find out whether they
+	// leave no gap.
+	parts := hc.postHandshakeParts[hm.seq]
+	for _, p := range parts {
+		if p.offset == hm.offset && len(p.body) == len(body) {
+			return nil
+		}
+	}
+	parts = append(parts, hm)
+	sort.SliceStable(parts, func(i, j int) bool { return parts[i].offset < parts[j].offset })
+	whole := make([]byte, 0, len(body))
+	for _, p := range parts {
+		start := uint32(len(whole))
+		if p.msgType != hm.msgType || p.length != hm.length || p.offset > start {
+			break
+		}
+		if p.offset+uint32(len(p.body)) > start {
+			whole = append(whole, p.body[start-p.offset:]...)
+		}
+	}
+	if uint32(len(whole)) < hm.length {
+		if hc.postHandshakeParts == nil {
+			hc.postHandshakeParts = map[uint32][]*HandshakeMessage{}
+		}
+		hc.postHandshakeParts[hm.seq] = parts
+		return nil
+	}
+	hc.postHandshakeSeqs[hm.seq] = true
+	delete(hc.postHandshakeParts, hm.seq)
+	hm.body, hm.offset = whole, 0
+	return hm
 }
 
 func (hc *HandshakeContext) addEarlyData(data []byte) {
-- 
2.43.0


From 95ac01b464ca8783e23b33efcb3198c5865d58b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:09 +0000
Subject: [PATCH 59/70] fix: count only the PSK modes that we know as offered

---
 negotiation.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/negotiation.go b/negotiation.go
index 90013ab..34b0949 100644
--- a/negotiation.go
+++ b/negotiation.go
@@ -126,11 +126,12 @@ func PSKModeNegotiation(canDoDH, canDoPSK bool, modes []PSKKeyExchangeMode) (boo
 	dhRequired := true
 	for _, mode := range modes {
 		dhAllowed = dhAllowed || (mode == PSKModeDHEKE)
-		dhRequired = dhRequired && (mode == PSKModeDHEKE)
+		// Modes that we do not know offer nothing
+		dhRequired = dhRequired && (mode != PSKModeKE)
 	}
 
 	// Use PSK if we can meet DH requirement and modes were provided
-	usingPSK := canDoPSK && (!dhRequired || canDoDH) && (len(modes) > 0)
+	usingPSK := canDoPSK && (!dhRequired || (dhAllowed && canDoDH))
 
 	// Use DH if allowed
 	usingDH := canDoDH && (dhAllowed || !usingPSK)
-- 
2.43.0


From 109eb5101290cf4d92749bfb644d8c1cc3595147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:15 +0000
Subject: [PATCH 60/70] fix: do not sign the handshake with PKCS1 schemes

---
 crypto.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crypto.go b/crypto.go
index cd71c1d..1cc5696 100644
--- a/crypto.go
+++ b/crypto.go
@@ -185,7 +185,8 @@ func schemeValidForKey(alg SignatureScheme, key crypto.Signer) bool {
 	sigType := sigMap[alg]
 	switch k := key.(type) {
 	case *rsa.PrivateKey:
-		return sigType == signatureAlgorithmRSA_PKCS1 || sigType == signatureAlgorithmRSA_PSS
+		// The PKCS1 schemes are for signatures in certificates only
+		return sigType == signatureAlgorithmRSA_PSS
 	case *ecdsa.PrivateKey:
 		// The scheme also fixes the curve
 		return sigType == signatureAlgorithmECDSA && curveMap[alg] == namedGroupFromECDSAKey(&k.PublicKey)
-- 
2.43.0


From 11cb7b1d72d31d1cf6177f6ec5394d450366d69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:22 +0000
Subject: [PATCH 61/70] fix: accept only signature schemes that were offered

---
 client-state-machine.go |  5 +++++
 crypto.go               | 15 +++++++++++++++
 server-state-machine.go |  5 +++++
 3 files changed, 25 insertions(+)

diff --git a/client-state-machine.go b/client-state-machine.go
index 46adace..bc0b9b7 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -879,6 +879,11 @@ func (state clientStateWaitCV) Next(hr handshakeMessageReader) (HandshakeState,
 		return nil, nil, AlertDecodeError
 	}
 
+	if !schemeAcceptable(certVerify.Algorithm, state.Config.SignatureSchemes) {
+		logf(logTypeHandshake, "[ClientStateWaitCV] Signature scheme not offered: %04x", certVerify.Algorithm)
+		return nil, nil, AlertIllegalParameter
+	}
+
 	hcv := state.handshakeHash.Sum(nil)
 	logf(logTypeHandshake, "Handshake Hash to be verified: [%d] %x", len(hcv), hcv)
 
diff --git a/crypto.go b/crypto.go
index 1cc5696..f5c8356 100644
--- a/crypto.go
+++ b/crypto.go
@@ -195,6 +195,21 @@ func schemeValidForKey(alg SignatureScheme, key crypto.Signer) bool {
 	}
 }
 
+// schemeAcceptable says whether the peer may sign the handshake with a scheme,
+// given the schemes that we told it we support.
+func schemeAcceptable(alg SignatureScheme, offered []SignatureScheme) bool {
+	if sigMap[alg] == signatureAlgorithmRSA_PKCS1 {
+		// For signatures in certificates only
+		return false
+	}
+	for _, scheme := range offered {
+		if scheme == alg {
+			return true
+		}
+	}
+	return false
+}
+
 func ffdheKeyShareFromPrime(p *big.Int) (priv, pub *big.Int, err error) {
 	primeLen := len(p.Bytes())
 	for {
diff --git a/server-state-machine.go b/server-state-machine.go
index 6a84ea7..47e3f6c 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -1065,6 +1065,11 @@ func (state serverStateWaitCV) Next(hr handshakeMessageReader) (HandshakeState,
 		return nil, nil, AlertDecodeError
 	}
 
+	if !schemeAcceptable(certVerify.Algorithm, state.Config.SignatureSchemes) {
+		logf(logTypeHandshake, "[ServerStateWaitCV] Signature scheme not offered: %04x", certVerify.Algorithm)
+		return nil, nil, AlertIllegalParameter
+	}
+
 	rawCerts := make([][]byte, len(state.clientCertificate.CertificateList))
 	certs := make([]*x509.Certificate, len(state.clientCertificate.CertificateList))
 	for i, certEntry := range state.clientCertificate.CertificateList {
-- 
2.43.0


From e37005816d82869db31519a9d41efb5239185d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:27 +0000
Subject: [PATCH 62/70] fix: a failed Read is final

---
 conn.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/conn.go b/conn.go
index c71d773..4853d42 100644
--- a/conn.go
+++ b/conn.go
@@ -550,6 +550,10 @@ func (c *Conn) Read(buffer []byte) (int, error) {
 		if err != nil {
 			if c.config.NonBlocking || err != AlertWouldBlock {
 				logf(logTypeIO, "conn.Read returns err=%v", err)
+				if err != AlertWouldBlock && (!c.config.UseDTLS || err == io.EOF) && !isTemporary(err) {
+					// Nothing that arrives later is delivered.
+					c.readError = err
+				}
 				return 0, err
 			}
 		}
@@ -558,6 +562,12 @@ func (c *Conn) Read(buffer []byte) (int, error) {
 	return readPartial(&c.readBuffer, buffer), nil
 }
 
+// isTemporary tells whether a later read from the transport can succeed
+func isTemporary(err error) bool {
+	netErr, ok := err.(net.Error)
+	return ok && (netErr.Timeout() || netErr.Temporary())
+}
+
 // Write application data
 func (c *Conn) Write(buffer []byte) (int, error) {
 	// Lock the output channel
-- 
2.43.0


From 2b037b4db737a4f17458474fa025d78986654eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:11 +0000
Subject: [PATCH 63/70] fix: alerts are errors whatever their level

---
 conn.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/conn.go b/conn.go
index 4853d42..d18348f 100644
--- a/conn.go
+++ b/conn.go
@@ -447,16 +447,11 @@ func (c *Conn) consumeRecord() error {
 			return c.readError
 		}
 
-		switch pt.fragment[0] {
-		case AlertLevelWarning:
-			// drop on the floor
-		case AlertLevelError:
+		// All other alerts are errors, whatever their level, but for the
+		// warning that a close_notify follows.
+		if Alert(pt.fragment[1]) != AlertUserCanceled || pt.fragment[0] == AlertLevelError {
 			c.readError = receivedAlert(pt.fragment[1])
 			return c.readError
-		default:
-			lockOut()
-			c.sendAlert(AlertUnexpectedMessage)
-			return io.EOF
 		}
 
 	case RecordTypeAck:
-- 
2.43.0


From bc5643a7229f0cac18b49fa0d6319bfb4d5eb769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:06 +0000
Subject: [PATCH 64/70] fix: a server that needs a cookie acknowledges nothing
 before it is returned

---
 dtls.go                 | 5 +++++
 server-state-machine.go | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/dtls.go b/dtls.go
index 2599691..7288a22 100644
--- a/dtls.go
+++ b/dtls.go
@@ -160,6 +160,11 @@ func (h *HandshakeContext) receivedHandshakeMessage() {
 		h.waitingNextFlight = false
 	}
 
+	// A server that needs a cookie only answers complete messages.
+	if h.hIn.anyFirstSeq {
+		return
+	}
+
 	// Now pre-emptively arm the ACK timer if it's not armed already.
 	// We'll automatically dis-arm it at the end of the handshake.
 	if h.timers.getTimer(ackTimerLabel) == nil {
diff --git a/server-state-machine.go b/server-state-machine.go
index 47e3f6c..8813faa 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -330,6 +330,10 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 		}
 	}
 
+	if state.hsCtx.hIn != nil {
+		state.hsCtx.hIn.anyFirstSeq = false
+	}
+
 	// If we've got no entropy to make keys from, fail
 	if !connParams.UsingDH && !connParams.UsingPSK {
 		logf(logTypeHandshake, "[ServerStateStart] Neither DH nor PSK negotiated")
-- 
2.43.0


From 45b1a298bf8d89c01f4bf23db13a6575a18da326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:06 +0000
Subject: [PATCH 65/70] fix: fragments of one ClientHello do not hold up
 another

---
 handshake-layer.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/handshake-layer.go b/handshake-layer.go
index 35ff37b..c70da5b 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -272,9 +272,6 @@ func (h *HandshakeLayer) noteMessageDelivered(seq uint32) {
 }
 
 func (h *HandshakeLayer) newFragmentReceived(hm *HandshakeMessage) (*HandshakeMessage, error) {
-	if h.anyFirstSeq && hm.msgType == HandshakeTypeClientHello && h.msgSeq == 0 && len(h.queued) == 0 {
-		h.msgSeq = hm.seq
-	}
 	if hm.seq < h.msgSeq {
 		return nil, nil
 	}
@@ -321,12 +318,31 @@ func (h *HandshakeLayer) checkMessageAvailable() (*HandshakeMessage, error) {
 		return nil, nil
 	}
 
-	hm := h.queued[0]
-	if hm.seq != h.msgSeq {
+	if h.anyFirstSeq && h.msgSeq == 0 {
+		// There can be fragments of several ClientHellos. The first one
+		// that is complete counts.
+		for i, hm := range h.queued {
+			if hm.msgType == HandshakeTypeClientHello && (i == 0 || hm.seq != h.queued[i-1].seq) {
+				hm, err := h.assembleMessage(h.queued[i:])
+				if hm != nil || err != nil {
+					return hm, err
+				}
+			}
+		}
 		return nil, nil
 	}
 
-	if hm.seq == h.msgSeq && hm.offset == 0 && hm.length == uint32(len(hm.body)) {
+	if h.queued[0].seq != h.msgSeq {
+		return nil, nil
+	}
+	return h.assembleMessage(h.queued)
+}
+
+// assembleMessage makes a message of the first fragments in the queue, if they
+// are all there.
+func (h *HandshakeLayer) assembleMessage(queued []*HandshakeMessage) (*HandshakeMessage, error) {
+	hm := queued[0]
+	if hm.offset == 0 && hm.length == uint32(len(hm.body)) {
 		// TODO(ekr@rtfm.com): Check the length?
 		// This is complete.
 		h.noteMessageDelivered(hm.seq)
@@ -337,7 +353,7 @@ func (h *HandshakeLayer) checkMessageAvailable() (*HandshakeMessage, error) {
 	end := uint32(0)
 	buf := make([]byte, hm.length)
 
-	for _, f := range h.queued {
+	for _, f := range queued {
 		// Out of fragments
 		if f.seq > hm.seq {
 			break
-- 
2.43.0


From 2531b87dd39ddc20aeccca3e6da558b82ab3f3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:06 +0000
Subject: [PATCH 66/70] fix: a server keeps to its own PSK modes

---
 negotiation.go          | 19 +++++++++++++++++++
 server-state-machine.go |  8 +++++---
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/negotiation.go b/negotiation.go
index 34b0949..924cfa9 100644
--- a/negotiation.go
+++ b/negotiation.go
@@ -120,6 +120,25 @@ func PSKNegotiation(identities []PSKIdentity, binders []PSKBinderEntry, context
 	return false, 0, nil, CipherSuiteParams{}, nil
 }
 
+// commonPSKModes returns the offered modes that are supported too. If nothing
+// is said about what is supported, that is all of them.
+func commonPSKModes(offered, supported []PSKKeyExchangeMode) []PSKKeyExchangeMode {
+	if len(supported) == 0 {
+		return offered
+	}
+
+	common := []PSKKeyExchangeMode{}
+	for _, m1 := range offered {
+		for _, m2 := range supported {
+			if m1 == m2 {
+				common = append(common, m1)
+				break
+			}
+		}
+	}
+	return common
+}
+
 func PSKModeNegotiation(canDoDH, canDoPSK bool, modes []PSKKeyExchangeMode) (bool, bool) {
 	logf(logTypeNegotiation, "Negotiating PSK modes [%v] [%v] [%+v]", canDoDH, canDoPSK, modes)
 	dhAllowed := false
diff --git a/server-state-machine.go b/server-state-machine.go
index 8813faa..cee4505 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -249,7 +249,11 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 	}
 
 	// Figure out if we actually should do DH / PSK
-	connParams.UsingDH, connParams.UsingPSK = PSKModeNegotiation(canDoDH, canDoPSK, clientPSKModes.KEModes)
+	modes := commonPSKModes(clientPSKModes.KEModes, state.Config.PSKModes)
+	connParams.UsingDH, connParams.UsingPSK = PSKModeNegotiation(canDoDH, canDoPSK, modes)
+	if !connParams.UsingPSK {
+		psk = nil
+	}
 
 	// Select a ciphersuite
 	connParams.CipherSuite, err = CipherSuiteNegotiation(psk, ch.CipherSuites, state.Config.CipherSuites)
@@ -346,8 +350,6 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 	if connParams.UsingPSK {
 		pskSecret = psk.Key
 	} else {
-		psk = nil
-
 		// If we're not using a PSK mode, then we need to have certain extensions
 		if !(foundExts[ExtensionTypeServerName] &&
 			foundExts[ExtensionTypeSupportedGroups] &&
-- 
2.43.0


From 223a54735b90ee19118930d546ca0f6f5eedcc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:06 +0000
Subject: [PATCH 67/70] fix: a server does not use a PSK for a ciphersuite it
 does not support

---
 negotiation.go          | 18 ++++++++++++++++++
 server-state-machine.go |  3 ++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/negotiation.go b/negotiation.go
index 924cfa9..2c247e3 100644
--- a/negotiation.go
+++ b/negotiation.go
@@ -52,6 +52,24 @@ const (
 	ticketAgeTolerance uint32 = 5 * 1000 // five seconds in milliseconds
 )
 
+// usablePSKs is a cache without the keys that go with other ciphersuites.
+type usablePSKs struct {
+	PreSharedKeyCache
+	suites []CipherSuite
+}
+
+func (c usablePSKs) Get(id string) (PreSharedKey, bool) {
+	psk, ok := c.PreSharedKeyCache.Get(id)
+	if ok {
+		for _, suite := range c.suites {
+			if suite == psk.CipherSuite {
+				return psk, true
+			}
+		}
+	}
+	return PreSharedKey{}, false
+}
+
 func PSKNegotiation(identities []PSKIdentity, binders []PSKBinderEntry, context []byte, psks PreSharedKeyCache) (bool, int, *PreSharedKey, CipherSuiteParams, error) {
 	logf(logTypeNegotiation, "Negotiating PSK offered=[%d] supported=[%d]", len(identities), psks.Size())
 	for i, id := range identities {
diff --git a/server-state-machine.go b/server-state-machine.go
index cee4505..305d1aa 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -241,7 +241,8 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 		}
 		context := append(contextBase, chTrunc...)
 
-		canDoPSK, selectedPSK, psk, params, err = PSKNegotiation(clientPSK.Identities, clientPSK.Binders, context, state.Config.PSKs)
+		canDoPSK, selectedPSK, psk, params, err = PSKNegotiation(clientPSK.Identities, clientPSK.Binders, context,
+			usablePSKs{state.Config.PSKs, state.Config.CipherSuites})
 		if err != nil {
 			logf(logTypeHandshake, "[ServerStateStart] Error in PSK negotiation [%v]", err)
 			return nil, nil, AlertInternalError
-- 
2.43.0


From db9c213fddaa46a3b6580f24748b501572d46a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:06 +0000
Subject: [PATCH 68/70] fix: a client only accepts a ciphersuite it offered

---
 client-state-machine.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index bc0b9b7..5fe60b7 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -295,6 +295,7 @@ func (state clientStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 		hsCtx:      state.hsCtx,
 		OfferedDH:  offeredDH,
 		OfferedPSK: offeredPSK,
+		suites:     ch.CipherSuites,
 
 		earlySecret: earlySecret,
 		earlyHash:   earlyHash,
@@ -328,6 +329,7 @@ type clientStateWaitSH struct {
 	OfferedDH  map[NamedGroup][]byte
 	OfferedPSK PreSharedKey
 	PSK        []byte
+	suites     []CipherSuite // offered
 
 	earlySecret []byte
 	earlyHash   crypto.Hash
@@ -385,9 +387,9 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 		logf(logTypeHandshake, "[ClientStateWaitSH] unsupported version [%x]", supportedVersions.Versions[0])
 		return nil, nil, AlertProtocolVersion
 	}
-	// 3. Check that the server provided a supported ciphersuite
+	// 3. Check that the server provided a ciphersuite that was offered
 	supportedCipherSuite := false
-	for _, suite := range state.Config.CipherSuites {
+	for _, suite := range state.suites {
 		supportedCipherSuite = supportedCipherSuite || (suite == sh.CipherSuite)
 	}
 	if !supportedCipherSuite {
-- 
2.43.0


From b32465d8a18837692f93b9d4db85d3ef7fadd123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:06 +0000
Subject: [PATCH 69/70] fix: a client only accepts a PSK mode it offered

---
 client-state-machine.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/client-state-machine.go b/client-state-machine.go
index 5fe60b7..76b92d0 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -523,6 +523,22 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 		return nil, nil, AlertMissingExtension
 	}
 
+	// A PSK goes with a key exchange, or without one, only as we offered
+	if state.Params.UsingPSK {
+		chosen := PSKModeKE
+		if state.Params.UsingDH {
+			chosen = PSKModeDHEKE
+		}
+		offered := false
+		for _, mode := range state.Config.PSKModes {
+			offered = offered || mode == chosen
+		}
+		if !offered {
+			logf(logTypeHandshake, "[ClientStateWaitSH] Server chose a key exchange mode that was not offered")
+			return nil, nil, AlertIllegalParameter
+		}
+	}
+
 	suite := sh.CipherSuite
 	state.Params.CipherSuite = suite
 
-- 
2.43.0


From 24e70f210bb130498d02b49728c3e7a7acf09b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:55 +0000
Subject: [PATCH 70/70] fix: random values are drawn in full

---
 client-state-machine.go | 3 ++-
 crypto.go               | 3 ++-
 handshake-messages.go   | 3 ++-
 server-state-machine.go | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index 76b92d0..56084b2 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -5,6 +5,7 @@ import (
 	"crypto"
 	"crypto/x509"
 	"hash"
+	"io"
 	"time"
 )
 
@@ -120,7 +121,7 @@ func (state clientStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 	var err error
 	if state.helloRetryRequest != nil {
 		ch.Random = state.random
-	} else if _, err = prng.Read(ch.Random[:]); err != nil {
+	} else if _, err = io.ReadFull(prng, ch.Random[:]); err != nil {
 		logf(logTypeHandshake, "[ClientStateStart] Error creating ClientHello random [%v]", err)
 		return nil, nil, AlertInternalError
 	}
diff --git a/crypto.go b/crypto.go
index f5c8356..96d14dd 100644
--- a/crypto.go
+++ b/crypto.go
@@ -14,6 +14,7 @@ import (
 	"crypto/x509/pkix"
 	"encoding/asn1"
 	"fmt"
+	"io"
 	"math/big"
 	"time"
 
@@ -261,7 +262,7 @@ func newKeyShare(group NamedGroup) (pub []byte, priv []byte, err error) {
 
 	case X25519:
 		var private, public [32]byte
-		_, err = prng.Read(private[:])
+		_, err = io.ReadFull(prng, private[:])
 		if err != nil {
 			return
 		}
diff --git a/handshake-messages.go b/handshake-messages.go
index c0f2617..60a096c 100644
--- a/handshake-messages.go
+++ b/handshake-messages.go
@@ -6,6 +6,7 @@ import (
 	"crypto/x509"
 	"encoding/binary"
 	"fmt"
+	"io"
 
 	"github.com/bifurcation/mint/syntax"
 )
@@ -429,7 +430,7 @@ const ticketNonceLen = 16
 
 func NewSessionTicket(ticketLen int, ticketLifetime uint32) (*NewSessionTicketBody, error) {
 	buf := make([]byte, 4+ticketNonceLen+ticketLen)
-	_, err := prng.Read(buf)
+	_, err := io.ReadFull(prng, buf)
 	if err != nil {
 		return nil, err
 	}
diff --git a/server-state-machine.go b/server-state-machine.go
index 305d1aa..b77797c 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -5,6 +5,7 @@ import (
 	"crypto/x509"
 	"fmt"
 	"hash"
+	"io"
 	"reflect"
 
 	"github.com/bifurcation/mint/syntax"
@@ -498,7 +499,7 @@ func (state serverStateNegotiated) Next(_ handshakeMessageReader) (HandshakeStat
 		LegacySessionID:         state.legacySessionId,
 		LegacyCompressionMethod: 0,
 	}
-	if _, err := prng.Read(sh.Random[:]); err != nil {
+	if _, err := io.ReadFull(prng, sh.Random[:]); err != nil {
 		logf(logTypeHandshake, "[ServerStateNegotiated] Error creating server random [%v]", err)
 		return nil, nil, AlertInternalError
 	}
-- 
2.43.0

