# B(name, property broken, edits...) and Q(name, edits...): behaviour kept
KX = 'session/kx.go'
INC = '''	n := uint32(1)
	for i := 0; i < 8; i++ {
		n += uint32(seq[i])
		seq[i] = byte(n)
		n >>= 8
	}
'''
B('incseq narrow carry', 'C16', (KX, INC, '''	n := uint8(1)
	for i := 0; i < 8; i++ {
		n += uint8(seq[i])
		seq[i] = byte(n)
		n >>= 8
	}
'''))
B('incseq four bytes', 'C16', (KX, 'for i := 0; i < 8; i++', 'for i := 0; i < 4; i++'))
B('incseq subslice', 'C16', (KX, 'for i := 0; i < 8; i++', 'for i := range seq[:16>>3]'))
Q('incseq break form', (KX, INC, '''	for i := range seq {
		seq[i]++
		if seq[i] != 0 {
			break
		}
	}
'''))
Q('incseq binary', (KX, INC, '''	binary.LittleEndian.PutUint64(seq[:8],
		binary.LittleEndian.Uint64(seq[:8])+1)
'''), (KX, '	"errors"\n', '	"encoding/binary"\n	"errors"\n'))
Q('incseq subslice 8', (KX, 'for i := 0; i < 8; i++ {', 'for i := range seq[:8] {'))
RA = 'ratchet/ratchet.go'
B('saved key deleted before open', 'C12', (RA, '''		sealedMessage := ciphertext[sealedHeaderSize:]
		copy(nonce[:], header[nonceInHeaderOffset:])
		// an''', '''		sealedMessage := ciphertext[sealedHeaderSize:]
		delete(messageKeys, msgNum)
		copy(nonce[:], header[nonceInHeaderOffset:])
		// an'''), (RA, '''		delete(messageKeys, msgNum)
		if len(''', '''		if len('''))
B('saved key kept', 'C12', (RA, '''		delete(messageKeys, msgNum)
''', '''		if len(messageKeys) > 1 {
			delete(messageKeys, msgNum)
		}
'''))
B('merge before open', 'C12', (RA, '''		if err != nil {
			return nil, err
		}

		copy(nonce[:], header[nonceInHeaderOffset:])
		msg, ok := secretbox.Open(nil, sealedMessage, &nonce, &messageKey)
		if !ok {
			return nil, errors.New("ratchet: corrupt message")
		}

		copy(r.recvChainKey[:], provisionalChainKey[:])
		r.mergeSavedKeys(savedKeys)
''', '''		if err != nil {
			return nil, err
		}
		r.mergeSavedKeys(savedKeys)

		copy(nonce[:], header[nonceInHeaderOffset:])
		msg, ok := secretbox.Open(nil, sealedMessage, &nonce, &messageKey)
		if !ok {
			return nil, errors.New("ratchet: corrupt message")
		}

		copy(r.recvChainKey[:], provisionalChainKey[:])
'''))
B('derive in place', 'C12', (RA, '''	deriveKey(&rootKey, rootKeyLabel, rootKeyHMAC)
	deriveKey(&chainKey''', '''	deriveKey(&r.rootKey, rootKeyLabel, rootKeyHMAC)
	rootKey = r.rootKey
	deriveKey(&chainKey'''))
B('no count update', 'C12', (RA, '''		r.recvCount = messageNum + 1
		return msg, nil
''', '''		if savedKeys != nil {
			r.recvCount = messageNum + 1
		}
		return msg, nil
'''))
Q('decrypt helper', (RA, '''		copy(r.recvChainKey[:], provisionalChainKey[:])
		r.mergeSavedKeys(savedKeys)
		r.recvCount = messageNum + 1
		return msg, nil
''', '''		r.commit(provisionalChainKey, savedKeys, messageNum)
		return msg, nil
'''), (RA, '''func (r *Ratchet) Decrypt(''', '''func (r *Ratchet) commit(ck [32]byte, keys map[[32]byte]map[uint32]savedKey, n uint32) {
	r.recvChainKey = ck
	r.mergeSavedKeys(keys)
	r.recvCount = n + 1
}

func (r *Ratchet) Decrypt('''))
Q('saveKeys limit rewritten', (RA, '''	missingMessages := messageNum - receivedCount
	if missingMessages > maxMissingMessages {
''', '''	missingMessages := messageNum - receivedCount
	if !(missingMessages <= maxMissingMessages) {
'''), (RA, '''	for n := receivedCount; n <= messageNum; n++ {
		h := hmac''', '''	n := receivedCount
	for ; n <= messageNum; n++ {
		h := hmac'''))
B('no limit past first', 'C13', (RA, 'if missingMessages > maxMissingMessages {', 'if missingMessages > maxMissingMessages && receivedCount > 0 {'))
B('limit too large', 'C13', (RA, 'if missingMessages > maxMissingMessages {', 'if missingMessages > maxMissingMessages<<16 {'))
B('swap on save', 'C14', (RA, 'NextSendHeaderKey:  dup32(&r.nextSendHeaderKey)', 'NextSendHeaderKey:  dup32(&r.nextRecvHeaderKey)'))
B('swap both private', 'C14', (RA, 'r.prevSendCount = s.PrevSendCount', 'r.prevSendCount = s.SendCount'))
B('flag dropped', 'C14', (RA, '		Ratchet:            r.ratchet,\n', ''))
B('halves swapped on save', 'C14', (RA, 'MyHalf:             dup32(r.MyHalf)', 'MyHalf:             dup32(r.TheirHalf)'))
B('bad length ignored', 'C14', (RA, '''		if !unmarshalKey(r.TheirHalf, s.TheirHalf) {
			return badSerialisedKeyLengthErr
		}
''', '''		unmarshalKey(r.TheirHalf, s.TheirHalf)
'''))
B('timestamp now', 'C14', (RA, 'savedKey.timestamp = time.Unix(messageKey.CreationTime, 0)', 'savedKey.timestamp = time.Now()'))
Q('unmarshal loop', (RA, '''	if !unmarshalKey(&r.rootKey, s.RootKey) ||
		!unmarshalKey(&r.sendHeaderKey, s.SendHeaderKey) ||
''', '''	if !unmarshalKey(&r.rootKey, s.RootKey) {
		return badSerialisedKeyLengthErr
	}
	if !unmarshalKey(&r.sendHeaderKey, s.SendHeaderKey) ||
'''))
Q('marshal fields set later', (RA, '		Ratchet:            r.ratchet,\n', ''), (RA, '''	for headerKey, messageKeys := range r.saved {
		keys :=''', '''	s.Ratchet = r.ratchet
	for headerKey, messageKeys := range r.saved {
		keys :='''))
ID = 'zkidentity/zkidentity.go'
B('verify skips nick', 'C31', (ID, '''	d.Write([]byte(p.Name))
	d.Write([]byte(p.Nick))
''', '''	d.Write([]byte(p.Name))
'''), (ID, '''	d.Write([]byte(fi.Public.Nick))
''', ''))
B('digest not compared', 'C31', (ID, 'if !bytes.Equal(p.Digest[:], d.Sum(nil)) {', 'if len(p.Digest) != len(d.Sum(nil)) {'))
B('unmarshal unverified', 'C31', (ID, '''	if !pi.Verify() {
		return nil, ErrVerify
	}
''', '''	if pi.Nick == "" && !pi.Verify() {
		return nil, ErrVerify
	}
'''))
B('key hash skipped for listed', 'C31', (ID, 'if !bytes.Equal(p.Identity[:], identity[:]) {', 'if p.Nick != "" && !bytes.Equal(p.Identity[:], identity[:]) {'))
Q('verify helper', (ID, '''	d := sha256.New()
	d.Write([]byte(p.Name))
	d.Write([]byte(p.Nick))
	d.Write(p.SigKey[:])
	d.Write(p.Key[:])
	d.Write(p.Identity[:])
	if !bytes.Equal(p.Digest[:], d.Sum(nil)) {
		return false
	}
	return ed25519.Verify(p.SigKey[:], p.Digest[:], p.Signature[:])
}
''', '''	if sum := p.sum(); !bytes.Equal(sum, p.Digest[:]) {
		return false
	}
	ok := ed25519.Verify(p.SigKey[:], p.Digest[:], p.Signature[:])
	return ok
}

func (p *PublicIdentity) sum() []byte {
	d := sha256.New()
	for _, b := range [][]byte{[]byte(p.Name), []byte(p.Nick)} {
		d.Write(b)
	}
	d.Write(p.SigKey[:])
	d.Write(p.Key[:])
	d.Write(p.Identity[:])
	return d.Sum(nil)
}
'''), (ID, '''	d := sha256.New()
	d.Write([]byte(fi.Public.Name))
	d.Write([]byte(fi.Public.Nick))
	d.Write(fi.Public.SigKey[:])
	d.Write(fi.Public.Key[:])
	d.Write(fi.Public.Identity[:])
	copy(fi.Public.Digest[:], d.Sum(nil))
''', '''	copy(fi.Public.Digest[:], fi.Public.sum())
'''))
Q('verify array compare', (ID, 'if !bytes.Equal(p.Identity[:], identity[:]) {', 'if p.Identity != identity {'))
B('decapsulate result ignored', 'C30', (RA, '''	k, ok := sntrup4591761.Decapsulate(&kx.Cipher, r.MyPrivateKey)
	if ok != 1 {
		return errors.New("CompleteKeyExchange: decapsulation error")
	}
''', '''	k, _ := sntrup4591761.Decapsulate(&kx.Cipher, r.MyPrivateKey)
'''))
B('blob decrypt lenient', 'C30', ('blobshare/blobshare.go', 'if !ok {\n		return nil, fmt.Errorf("could not decrypt")', 'if !ok && len(data) > 0 {\n		return nil, fmt.Errorf("could not decrypt")'))
B('step2 uses failed decrypt', 'C30', ('zkclient/push.go', '''	decrypted, err := blobshare.Decrypt(k, nonce, encrypted)
	if err != nil {''', '''	decrypted, err := blobshare.Decrypt(k, nonce, encrypted)
	if err != nil && z.settings.Debug {'''))

ZS = 'zkserver/zkserver.go'; AC = 'zkserver/account/account.go'; RZ = 'zkserver/rendezvous.go'; ZC = 'zkclient/zkclient.go'; IN = 'inidb/inidb.go'
# C10
B('rendezvous lock kept on open error', 'C10', (RZ, '''		z.rendezvousMtx.Unlock()
		return fmt.Errorf("could not open rendezvous db: %v",
			err)
''', '''		return fmt.Errorf("could not open rendezvous db: %v",
			err)
'''))
B('session lock kept on duplicate tag', 'C10', (ZS, '''				sc.Unlock()
				z.Error(idS, "write duplicate tag''', '''				z.Error(idS, "write duplicate tag'''))
B('account locked twice', 'C10', (AC, '''	a.Lock()
	defer a.Unlock()
	a.offline(who)
''', '''	a.Lock()
	defer a.Unlock()
	a.offline(who)
	a.forget(who)
'''), (AC, '''// Offline knocks a user''', '''func (a *Account) forget(who [zkidentity.IdentitySize]byte) {
	a.Lock()
	defer a.Unlock()
	delete(a.online, who)
}

// Offline knocks a user'''))
B('account and sessions in both orders', 'C10', (ZS, '''			if sc, ok := z.sessions[jud.Identity]; ok {
				z.Dbg(''', '''			if sc, ok := z.sessions[jud.Identity]; ok {
				sc.Lock()
				sc.Unlock()
				z.Dbg('''), (ZS, '''			sc.Lock()
			sc.tagMessage[message.Tag] = nil
			sc.Unlock()
''', '''			sc.Lock()
			sc.tagMessage[message.Tag] = nil
			z.Lock()
			z.sessions[rids] = &sc
			z.Unlock()
			sc.Unlock()
'''))
B('tag taken with the session locked', 'C10', (ZS, '''			tag, err := sc.tagStack.PopQuit(sc.quit)
			if err != nil {''', '''			sc.Lock()
			tag, err := sc.tagStack.Pop()
			sc.Unlock()
			if err != nil {'''))
B('write to the peer with the sessions locked', 'C10', (ZS, '''				sc.kx.Close()
			}
			z.Unlock()''', '''				sc.kx.Write([]byte{0})
				sc.kx.Close()
			}
			z.Unlock()'''))
B('find leaves the lock on error', 'C10', (AC, '''		if err != nil {
			a.Unlock()
			return nil, fmt.Errorf("could not find user: %v", err)
		}
		a.Unlock()
''', '''		if err != nil {
			return nil, fmt.Errorf("could not find user: %v", err)
		}
		a.Unlock()
'''))
B('ratchet lock under the client lock', 'C10', (ZC, '''	z.Lock()
	defer z.Unlock()

	if z.online {
		return nil, fmt.Errorf("already online")
	}
''', '''	z.Lock()
	defer z.Unlock()

	if z.online {
		return nil, fmt.Errorf("already online")
	}
	z.ratchetMtx.Lock()
	z.ratchetMtx.Unlock()
'''))
B('inidb save locks through prune', 'C10', (IN, '''func (i *INIDB) prune() error {
''', '''func (i *INIDB) prune() error {
	i.mtx.Lock()
	defer i.mtx.Unlock()
'''))
# C11
B('session removed without the lock', 'C11', (ZS, '''		z.Lock()
		if z.sessions[rids] == &sc {
			delete(z.sessions, rids)
		}
		z.Unlock()
''', '''		if z.sessions[rids] == &sc {
			delete(z.sessions, rids)
		}
'''))
B('tag read before the lock', 'C11', (ZS, '''			sc.Lock()
			m := sc.tagMessage[message.Tag]
			sc.Unlock()
''', '''			m := sc.tagMessage[message.Tag]
'''))
B('deliver releases early', 'C11', (AC, '''	// notify
	dn, found := a.online[to]
''', '''	// notify
	a.Unlock()
	dn, found := a.online[to]
	a.Lock()
'''))
B('offline without the lock', 'C11', (AC, '''	a.Lock()
	defer a.Unlock()
	a.offline(who)
''', '''	a.offline(who)
'''))
B('processed unlocked', 'C11', (AC, '''				dn.processed[v.Name()] = struct{}{}
				a.Unlock()
''', '''				a.Unlock()
				dn.processed[v.Name()] = struct{}{}
'''))
B('inidb get unlocked', 'C11', (IN, '''	i.mtx.Lock()
	defer i.mtx.Unlock()

	value, ok := i.tables.Get(table, key)
''', '''	value, ok := i.tables.Get(table, key)
'''))
B('conversation saved unlocked', 'C11', ('zkclient/mainwindow.go', '''	z.RLock()
	defer z.RUnlock()

	cdb.NewTable''', '''	cdb.NewTable'''))
B('kx used unlocked', 'C11', (ZC, '''	err = kx.Write(bb.Bytes())
''', '''	err = z.kx.Write(bb.Bytes())
'''))
B('write under the read lock', 'C11', ('zkclient/mainwindow.go', '''	z.Lock()
	defer z.Unlock()
	console := z.conv''', '''	z.RLock()
	defer z.RUnlock()
	console := z.conv'''))
Q('locked helper', (ZS, '''		z.Lock()
		if z.sessions[rids] == &sc {
			delete(z.sessions, rids)
		}
		z.Unlock()
''', '''		z.locked(func() {
			if z.sessions[rids] == &sc {
				delete(z.sessions, rids)
			}
		})
'''), (ZS, '''func (z *ZKS) preSession(''', '''func (z *ZKS) locked(f func()) {
	z.Lock()
	defer z.Unlock()
	f()
}

func (z *ZKS) preSession('''))
Q('session list in a helper with the lock held', (ZS, '''		z.Lock()
		if z.sessions[rids] == &sc {
			delete(z.sessions, rids)
		}
		z.Unlock()
''', '''		z.Lock()
		z.forget(rids, &sc)
		z.Unlock()
'''), (ZS, '''func (z *ZKS) preSession(''', '''func (z *ZKS) forget(rids string, sc *sessionContext) {
	if z.sessions[rids] == sc {
		delete(z.sessions, rids)
	}
}

func (z *ZKS) preSession('''))
Q('rendezvous open in a helper', (RZ, '''	z.rendezvousMtx.Lock()
	rz, err := inidb.New(path.Join(z.settings.Root, rendezvousPath),
		true, 10)
	z.rendezvousMtx.Unlock()
	if err''', '''	rz, err := z.openRendezvous()
	if err'''), (RZ, '''// handleRendezvous handles all aspects of a Rendezvous message''', '''func (z *ZKS) openRendezvous() (*inidb.INIDB, error) {
	z.rendezvousMtx.Lock()
	defer z.rendezvousMtx.Unlock()

	return inidb.New(path.Join(z.settings.Root, rendezvousPath), true, 10)
}

// handleRendezvous handles all aspects of a Rendezvous message'''))
Q('take tag message in helper', (ZS, '''			sc.Lock()
			m := sc.tagMessage[message.Tag]
			sc.Unlock()
''', '''			m := sc.inFlight(message.Tag)
'''), (ZS, '''func (z *ZKS) preSession(''', '''func (sc *sessionContext) inFlight(tag uint32) *RPCWrapper {
	sc.Lock()
	defer sc.Unlock()
	return sc.tagMessage[tag]
}

func (z *ZKS) preSession('''))
Q('find with closure', (AC, '''		dirname := path.Join(a.root, v.Name())
		user, err := inidb.New(path.Join(dirname, UserIdentityFilename), false, 10)
		if err != nil {
			a.Unlock()
			return nil, fmt.Errorf("could not find user: %v", err)
		}
		a.Unlock()
''', '''		user, err := func() (*inidb.INIDB, error) {
			defer a.Unlock()
			return inidb.New(path.Join(a.root, v.Name(), UserIdentityFilename), false, 10)
		}()
		if err != nil {
			return nil, fmt.Errorf("could not find user: %v", err)
		}
'''))
Q('online map in new func', (AC, '''	a.online[who] = dn
	a.Unlock()
''', '''	a.setOnline(who, dn)
	a.Unlock()
'''), (AC, '''// Offline knocks a user''', '''func (a *Account) setOnline(who [zkidentity.IdentitySize]byte, dn diskNotification) {
	a.online[who] = dn
}

// Offline knocks a user'''))
# C29
B('push decoded without a limit', 'C29', ('zkclient/push.go', '_, err = unmarshal(br, &crpc)', '_, err = xdr.Unmarshal(br, &crpc)')) 
B('server unmarshal unlimited', 'C29', (ZS, 'return xdr.UnmarshalLimited(r, v, uint(z.settings.MaxMsgSize))', 'return xdr.Unmarshal(r, v)'))
B('session without a limit', 'C29', (ZS, '''			kx.MaxMessageSize = uint(z.settings.MaxMsgSize)
''', ''))
B('read record unlimited', 'C29', (KX, 'xdr.UnmarshalLimited(kx.Conn, &payload, kx.MaxMessageSize)', 'xdr.Unmarshal(kx.Conn, &payload)'))
B('write check without overhead', 'C29', (KX, 'if uint(len(data)+secretbox.Overhead) > kx.MaxMessageSize', 'if uint(len(data)) > kx.MaxMessageSize'))
B('write check gone', 'C29', (KX, '''	if uint(len(data)+secretbox.Overhead) > kx.MaxMessageSize {
		return ErrOverflow
	}
''', ''), )
B('tag depth not limited above', 'C29', (ZC, 'if td < 1 || td > tagDepth {', 'if td < 1 {'))
B('message size zero accepted', 'C29', (ZC, '''	if ms == 0 {
		return nil, fmt.Errorf("server did not provide chunk size")
	}
	if ms < cs {
		return nil, fmt.Errorf("message size < chunk size")
	}
''', '''	if ms != 0 && ms < cs {
		return nil, fmt.Errorf("message size < chunk size")
	}
'''))
B('chunk size not limited', 'C29', (ZC, '''	if ms < cs {
		return nil, fmt.Errorf("message size < chunk size")
	}
''', ''))
Q('write check on sealed record', (KX, '''	if uint(len(data)+secretbox.Overhead) > kx.MaxMessageSize {
		return ErrOverflow
	}
''', '''	size := secretbox.Overhead + len(data)
	if kx.MaxMessageSize < uint(size) {
		return ErrOverflow
	}
'''))
Q('welcome sizes helper', (ZC, '''	z.chunkSize = cs
	z.msgSize = uint(ms)
	z.attachmentSize = as
''', '''	z.setSizes(cs, ms, as)
'''), (ZC, '''func (z *ZKC) goOnlineAndPrint() error {''', '''func (z *ZKC) setSizes(cs, ms, as uint64) {
	z.chunkSize = cs
	z.msgSize = uint(ms)
	z.attachmentSize = as
}

func (z *ZKC) goOnlineAndPrint() error {'''))
Q('unmarshal inlined', ('zkclient/push.go', '_, err = unmarshal(br, &crpc)', '_, err = xdr.UnmarshalLimited(br, &crpc, maxDecode)')) 
# C20
PU = 'zkclient/push.go'
ID = 'zkclient/identity.go'
MS = 'zkclient/msg.go'
SAVEFIRST = '''	// save ratchet prior to sending, a message key must never be used for
	// another message
	err = z.updateRatchet(r, false)
	if err != nil {
		err2 := z.tagStack.Push(tag)
		if err2 != nil {
			return fmt.Errorf("could not push tag, internal "+
				"state corrupt, please quit: %v %v", err, err2)
		}
		return fmt.Errorf("critical error: could not update ratchet: %v",
			err)
	}

'''
B('ratchet saved after send', 'C20', (MS, SAVEFIRST, ''), (MS, '''		return err
	}

	return nil
}
''', '''		return err
	}
	return z.updateRatchet(r, false)
}
'''))
B('ratchet not saved on a tag', 'C20', (MS, '	err = z.updateRatchet(r, false)\n	if err != nil {\n		err2', '	if f != nil {\n		err = z.updateRatchet(r, false)\n	}\n	if err != nil {\n		err2'))
B('cacheCRPC lock gap', 'C20', (MS, '''	// message
	tag, err := z.tagStack.Pop()
	if err != nil {
		return fmt.Errorf("could not obtain tag: %v", err)
	}
''', '''	// message
	z.ratchetMtx.Unlock()
	tag, err := z.tagStack.Pop()
	z.ratchetMtx.Lock()
	if err != nil {
		return fmt.Errorf("could not obtain tag: %v", err)
	}
'''))
B('push ratchet save error ignored', 'C20', (PU, '''	err = z.updateRatchet(r, false)
	if err != nil {
		z.ratchetMtx.Unlock()
		return err
	}
	z.ratchetMtx.Unlock()
''', '''	err = z.updateRatchet(r, false)
	z.ratchetMtx.Unlock()
	if err != nil {
		z.Error(idZKC, "could not save ratchet: %v", err)
	}
'''))
B('push decoded before saved', 'C20', (PU, '''	// update ratchet on disk
	err = z.updateRatchet(r, false)
	if err != nil {
		z.ratchetMtx.Unlock()
		return err
	}
	z.ratchetMtx.Unlock()

	// decode CRPC
	var crpc rpc.CRPC
	br := bytes.NewReader(decrypted)
	_, err = unmarshal(br, &crpc)
	if err != nil {
		return fmt.Errorf("unmarshal crpc failed")
	}
''', '''	// decode CRPC
	var crpc rpc.CRPC
	br := bytes.NewReader(decrypted)
	_, err = unmarshal(br, &crpc)
	if err != nil {
		z.ratchetMtx.Unlock()
		return fmt.Errorf("unmarshal crpc failed")
	}

	// update ratchet on disk
	err = z.updateRatchet(r, false)
	if err != nil {
		z.ratchetMtx.Unlock()
		return err
	}
	z.ratchetMtx.Unlock()
'''))
B('push lock taken after load', 'C20', (PU, '''	z.ratchetMtx.Lock()

	// get ratchet
	r, err := z.loadRatchet(p.From, false)
	if err != nil {
		z.ratchetMtx.Unlock()
		return fmt.Errorf("could not load ratchet: %v", err)
	}

	decrypted''', '''	// get ratchet
	r, err := z.loadRatchet(p.From, false)
	if err != nil {
		return fmt.Errorf("could not load ratchet: %v", err)
	}

	z.ratchetMtx.Lock()
	decrypted'''))
B('step 2 sends before saving', 'C20', (PU, '''	z.ratchetMtx.Lock()
	err = z.updateRatchet(r, false)
	if err != nil {
		z.ratchetMtx.Unlock()
		return fmt.Errorf("could not save ratchet kx %v", err)
	}
	z.ratchetMtx.Unlock()

	// send kxRatchet to the other end
	kx := rpc.KX{
		KX: *kxRatchet,
	}
	kxXDR := &bytes.Buffer{}
	_, err = xdr.Marshal(kxXDR, kx)
	if err != nil {
		return fmt.Errorf("could not marshal KX")
	}

	// encrypt kx
	encrypted, nonce, err = blobshare.Encrypt(kxXDR.Bytes(), k)
	if err != nil {
		return fmt.Errorf("could not encrypt KX %v", err)
	}

	// send cache command, step 3 of idkx
	err = z.cache(idkx.Identity.Identity, blobshare.PackNonce(nonce, encrypted))
	if err != nil {
		return fmt.Errorf("could not send KX %v", err)
	}
''', '''	// send kxRatchet to the other end
	kx := rpc.KX{
		KX: *kxRatchet,
	}
	kxXDR := &bytes.Buffer{}
	_, err = xdr.Marshal(kxXDR, kx)
	if err != nil {
		return fmt.Errorf("could not marshal KX")
	}

	// encrypt kx
	encrypted, nonce, err = blobshare.Encrypt(kxXDR.Bytes(), k)
	if err != nil {
		return fmt.Errorf("could not encrypt KX %v", err)
	}

	// send cache command, step 3 of idkx
	err = z.cache(idkx.Identity.Identity, blobshare.PackNonce(nonce, encrypted))
	if err != nil {
		return fmt.Errorf("could not send KX %v", err)
	}

	z.ratchetMtx.Lock()
	err = z.updateRatchet(r, false)
	if err != nil {
		z.ratchetMtx.Unlock()
		return fmt.Errorf("could not save ratchet kx %v", err)
	}
	z.ratchetMtx.Unlock()
'''))
B('half ratchet removed first', 'C20', (PU, '''		// save full ratchet to disk
		err = z.updateRatchet(r, false)
		if err != nil {
			z.ratchetMtx.Unlock()
			return fmt.Errorf("could not save ratchet kx %v", err)
		}

		// remove half ratchet
		err = z.removeRatchet(p.From, true)
		if err != nil {
			z.ratchetMtx.Unlock()
			return fmt.Errorf("could not remove half ratchet kx %v",
				err)
		}
''', '''		// remove half ratchet
		err = z.removeRatchet(p.From, true)
		if err != nil {
			z.ratchetMtx.Unlock()
			return fmt.Errorf("could not remove half ratchet kx %v",
				err)
		}

		// save full ratchet to disk
		err = z.updateRatchet(r, false)
		if err != nil {
			z.ratchetMtx.Unlock()
			return fmt.Errorf("could not save ratchet kx %v", err)
		}
'''))
B('reset without ratchet lock', 'C20', ('zkclient/reset.go', '	z.ratchetMtx.Lock()\n', ''), ('zkclient/reset.go', '	z.ratchetMtx.Unlock()\n', ''))
B('step 1 sends before saving', 'C20', (ZC, '''		// not sent, allow for a retry
		z.removeRatchet(id.Identity, true)
		return fmt.Errorf("could not send IdentityKX: %v", err)
	}

	return nil
''', '''		return fmt.Errorf("could not send IdentityKX: %v", err)
	}

	z.ratchetMtx.Lock()
	defer z.ratchetMtx.Unlock()
	err = z.updateRatchet(r, true)
	if err != nil {
		return fmt.Errorf("could not save half ratchet: %v", err)
	}

	return nil
'''), (ZC, '''	z.ratchetMtx.Lock()
	defer z.ratchetMtx.Unlock()
	err = z.updateRatchet(r, true)
	if err != nil {
		return fmt.Errorf("could not save half ratchet: %v", err)
	}

	err = z.cache(id''', '''	err = z.cache(id'''))
B('push acknowledged before handled', 'C20', (ZC, '''			err = z.handlePush(message, p)
''', '''			z.schedulePRPC(true, rpc.Message{Command: rpc.TaggedCmdAcknowledge, Tag: message.Tag}, rpc.Acknowledge{})
			err = z.handlePush(message, p)
''')) 
Q('decrypt helper', (PU, '''	z.ratchetMtx.Lock()

	// get ratchet
	r, err := z.loadRatchet(p.From, false)
	if err != nil {
		z.ratchetMtx.Unlock()
		return fmt.Errorf("could not load ratchet: %v", err)
	}

	decrypted, err := r.Decrypt(p.Payload)
	if err != nil {
		z.ratchetMtx.Unlock()
		return &ratchetError{
			err: fmt.Sprintf("could not decrypt: %v", err),
		}
	}

	// update ratchet on disk
	err = z.updateRatchet(r, false)
	if err != nil {
		z.ratchetMtx.Unlock()
		return err
	}
	z.ratchetMtx.Unlock()
''', '''	decrypted, err := z.decryptPush(p.From, p.Payload)
	if err != nil {
		return err
	}
'''), (PU, '''func (z *ZKC) handlePush(''', '''func (z *ZKC) decryptPush(from [32]byte, payload []byte) ([]byte, error) {
	z.ratchetMtx.Lock()
	defer z.ratchetMtx.Unlock()

	r, err := z.loadRatchet(from, false)
	if err != nil {
		return nil, fmt.Errorf("could not load ratchet: %v", err)
	}

	decrypted, err := r.Decrypt(payload)
	if err != nil {
		return nil, &ratchetError{
			err: fmt.Sprintf("could not decrypt: %v", err),
		}
	}

	// update ratchet on disk
	if err := z.updateRatchet(r, false); err != nil {
		return nil, err
	}
	return decrypted, nil
}

func (z *ZKC) handlePush('''))
Q('cacheCRPC locked helper', (MS, '''	z.ratchetMtx.Lock()
	defer z.ratchetMtx.Unlock()

	// get ratchet
''', '''	z.ratchetMtx.Lock()
	defer z.ratchetMtx.Unlock()

	return z.cacheCRPCLocked(id, payload, f)
}

func (z *ZKC) cacheCRPCLocked(id [zkidentity.IdentitySize]byte, payload interface{}, f func()) error {
	// get ratchet
'''))
Q('ratchet file name helper', (ID, '''	var rf string
	if half {
		rf = halfRatchetFilename
	} else {
		rf = ratchetFilename
	}

	ids := hex.EncodeToString(id[:])
	fullPath := path.Join(z.settings.Root, inboundDir, ids)

	// read''', '''	rf := ratchetName(half)

	ids := hex.EncodeToString(id[:])
	fullPath := path.Join(z.settings.Root, inboundDir, ids)

	// read'''), (ID, 'func (z *ZKC) loadRatchet(', '''func ratchetName(half bool) string {
	if half {
		return halfRatchetFilename
	}
	return ratchetFilename
}

func (z *ZKC) loadRatchet('''))


# ---- C25
DB='inidb/inidb.go'; GI='zkclient/groupinvites.go'; BK='zkclient/blobkeys.go'; ZC='zkclient/zkclient.go'; ACC='zkserver/account/account.go'; PEN='zkserver/pending.go'; GC='zkclient/groupchat.go'
B('inidb: no sync','C25',(DB,"""	if err == nil {
		err = f.Sync()
	}
	err2 := f.Close()""","""	err2 := f.Close()"""))
B('inidb: write error lost','C25',(DB,"""	if err == nil {
		err = f.Sync()
	}
	err2""","""	err = f.Sync()
	err2"""))
B('inidb: close after rename','C25',(DB,"""	err2 := f.Close()
	if err == nil {
		err = err2
	}
	if err != nil {
		os.Remove(f.Name())
		return fmt.Errorf("could not write temporary file: %v", err)
	}
""","""	defer f.Close()
	if err != nil {
		os.Remove(f.Name())
		return fmt.Errorf("could not write temporary file: %v", err)
	}
"""))
B('inidb: dirty cleared early','C25',(DB,"""	// rename new one
	err =""","""	i.dirty = false
	// rename new one
	err ="""))
B('inidb: deferred clear','C25',(DB,"""	i.dirty = false

	return i.prune()""","""	return i.prune()"""),(DB,"""	if !i.dirty {
		return nil
	}
""","""	if !i.dirty {
		return nil
	}
	defer func() { i.dirty = false }()
"""))
B('inidb: del not marked','C25',(DB,"""	delete(s, key)
	i.dirty = true
""","""	delete(s, key)
"""))
B('inidb: set marked only for new','C25',(DB,"""	s[key] = value
	i.dirty = true
""","""	if _, found := s[key]; !found {
		i.dirty = true
	}
	s[key] = value
"""))
B('inidb: rename error ignored','C25',(DB,"""	if err != nil {
		return fmt.Errorf("could not rename new file: %v", err)
	}
""","""	_ = err
"""))
B('delInvite save not reported','C25',(GI,"""		return fmt.Errorf("could not save invites db: %v", err)
	}

	return nil
}
""","""		z.Dbg(idZKC, "could not save invites db: %v", err)
	}

	return nil
}
"""))
B('saveKey drops the error','C25',(BK,"	return z.pruneKey(kdb)\n","	_ = z.pruneKey(kdb)\n	return nil\n"))
B('server record not saved','C25',(ZC,"""	err = server.Save()
	if err != nil {
		return fmt.Errorf("could not save server: %v", err)
	}
""",""))
B('ratchet written in place','C25',(ID,"	f, err := ioutil.TempFile(fullPath, rf)\n","	f, err := os.Create(path.Join(fullPath, rf))\n"))
B('ratchet renamed before it is closed','C25',(ID,"""	err = f.Close()
	if err != nil {
		return fmt.Errorf("could not close ratchet file: %v", err)
	}

""","""	defer f.Close()

"""))
B('ratchet not synced','C25',(ID,"""	err = f.Sync()
	if err != nil {
		f.Close()
		return fmt.Errorf("could not sync ratchet file: %v", err)
	}
""",""))
B('identity written in place','C25',(ID,"	err = writeFile(fullPath, filename, pidXDR)\n","	err = ioutil.WriteFile(filename, pidXDR, 0600)\n"))
B('group written in place','C25',(GC,"	err = writeFile(z.settings.Root, filename, bb.Bytes())\n","	err = ioutil.WriteFile(filename, bb.Bytes(), 0600)\n"),(GC,'	"io"\n','	"io"\n	"io/ioutil"\n') if False else (GC,'	"fmt"\n','	"fmt"\n	"io/ioutil"\n'))
Q('inidb writes by a helper',(DB,"""	_, err = f.Write(b.Bytes())
	if err == nil {
		err = f.Sync()
	}
	err2 := f.Close()
	if err == nil {
		err = err2
	}
	if err != nil {
		os.Remove""","""	err = finish(f, b.Bytes())
	if err != nil {
		os.Remove"""),(DB,"func (i *INIDB) prune() error {","""func finish(f *os.File, data []byte) error {
	if _, err := f.Write(data); err != nil {
		f.Close()
		return err
	}
	if err := f.Sync(); err != nil {
		f.Close()
		return err
	}
	return f.Close()
}

func (i *INIDB) prune() error {"""))
Q('inidb marks by a helper',(DB,"""	s[key] = value
	i.dirty = true
""","""	i.mark()
	s[key] = value
"""),(DB,"func (i *INIDB) prune() error {","""func (i *INIDB) mark() {
	i.dirty = true
}

func (i *INIDB) prune() error {"""))
Q('delInvite and delJoin save by a helper',(GI,"""	// write back to disk
	err = idb.Save()
	if err != nil {
		return fmt.Errorf("could not save invites db: %v", err)
	}

	return nil
}
""","""	return flush(idb)
}

func flush(idb *inidb.INIDB) error {
	// write back to disk
	if err := idb.Save(); err != nil {
		return fmt.Errorf("could not save invites db: %v", err)
	}
	return nil
}
"""))
# groups
ADMKILL='''	if !bytes.Equal(group.Members[0][:], p.From[:]) {
		return fmt.Errorf("spoofed group chat kill command")
	}
'''
B('kill unchecked','C21',(PU,ADMKILL,''))
B('kill from any member','C21',(PU,ADMKILL,'''	var member bool
	for _, v := range group.Members {
		if bytes.Equal(v[:], p.From[:]) {
			member = true
		}
	}
	if !member {
		return fmt.Errorf("spoofed group chat kill command")
	}
'''))
B('kill checks us','C21',(PU,ADMKILL,ADMKILL.replace('p.From[:]','z.id.Public.Identity[:]')))
ADMKICK='''	if !bytes.Equal(group.Members[0][:], p.From[:]) {
		return fmt.Errorf("kick/part was not sent by group chat " +
			"administrator")
	}
'''
B('kick by the kicked','C21',(PU,ADMKICK,ADMKICK.replace('group.Members[0][:], p.From','gk.NewGroupList.Members[0][:], p.From').replace('if !','if len(gk.NewGroupList.Members) == 0 || !')))
B('kick of self unchecked','C21',(PU,ADMKICK,ADMKICK.replace('if !','if gk.Parted && !')))
B('update old admin unchecked','C21',(ZC,'''	if !bytes.Equal(group.Members[0][:], id[:]) {
		return errNotAdmin
	}
''','''	if !bytes.Equal(group.Members[0][:], id[:]) && len(group.Members) > 1 {
		return errNotAdmin
	}
'''))
B('update new admin unchecked','C21',(ZC,'''	if len(gl.Members) == 0 || !bytes.Equal(gl.Members[0][:], id[:]) {
''','''	if len(gl.Members) == 0 {
'''))
B('update compares last','C21',(ZC,'''	if !bytes.Equal(group.Members[0][:], id[:]) {
		return errNotAdmin''','''	if !bytes.Equal(group.Members[len(group.Members)-1][:], id[:]) {
		return errNotAdmin'''))
B('update creates group','C21',(ZC,'''	group, found := z.groups[gl.Name]
	if !found {
		return fmt.Errorf("group not found: %v", gl.Name)
	}

	if len(group''','''	group, found := z.groups[gl.Name]
	if !found {
		z.groups[gl.Name] = gl
		return z._gcSaveDisk(gl.Name)
	}

	if len(group'''))
B('list handler installs','C21',(PU,'''	err = z.updateGroupList(p.From, gl)
''','''	z.Lock()
	if g, ok := z.groups[gl.Name]; ok && len(g.Members) == 1 {
		z.groups[gl.Name] = gl
	}
	z.Unlock()
	err = z.updateGroupList(p.From, gl)
'''))
B('list sender from list','C21',(PU,'''	err = z.updateGroupList(p.From, gl)
''','''	if len(gl.Members) == 0 {
		return nil
	}
	err = z.updateGroupList(gl.Members[0], gl)
'''))
B('join without invite','C21',(PU,'''	err := z.delInvite(p.From, gj)
	if err != nil {
		return fmt.Errorf("join failed: %v", err)
	}
''','''	err := z.delInvite(p.From, gj)
	if err != nil {
		z.Dbg(idZKC, "join failed: %v", err)
	}
'''))
B('join not admin','C21',(PU,'''	if !bytes.Equal(gc.Members[0][:], z.id.Public.Identity[:]) {
		return fmt.Errorf("not group chat administrator")
	}

	// check if we had''','''	// check if we had'''))
B('invite token unchecked','C21',(GI,'	if invite.Token != gj.Token {\n','	if gj.Token != 0 && invite.Token != gj.Token {\n'))
B('invite not deleted','C21',(GI,'''	err = idb.Del(gj.Name, froms)
	if err != nil {
		return fmt.Errorf("could not delete %v %v: %v",
			gj.Name, froms, err)
	}
''',''))
B('invite deletion not saved','C21',(GI,'''	err = idb.Save()
	if err != nil {
		return fmt.Errorf("could not save invites db: %v", err)
	}

	return nil
}
''','''	return nil
}
'''))
B('part removes another','C21',(PU,'append(gc.Members[:i:i], gc.Members[i+1:]...)','append(gc.Members[:i-1:i-1], gc.Members[i:]...)'))
B('part not admin','C21',(PU,'''	if !bytes.Equal(gc.Members[0][:], z.id.Public.Identity[:]) {
		return fmt.Errorf("part may only''','''	if len(gc.Members) == 1 {
		return fmt.Errorf("part may only'''))
B('kick command not admin','C21',(GC,'''	// make sure we are list administrator
	if !bytes.Equal(gc.Members[0][:], z.id.Public.Identity[:]) {
		return fmt.Errorf("not group chat administrator")
	}

	// make sure we aren't''','''	// make sure we aren't'''))
B('invite command not admin','C21',(GC,'''	if !bytes.Equal(g.Members[0][:], z.id.Public.Identity[:]) {
		return fmt.Errorf("must be''','''	if len(g.Members) > 1 && !bytes.Equal(g.Members[0][:], z.id.Public.Identity[:]) {
		return fmt.Errorf("must be'''))
B('kill command not admin','C21',(GC,'''		if !bytes.Equal(gc.Members[0][:], z.id.Public.Identity[:]) {
			return fmt.Errorf("not group chat administrator")
		}
		// tell''','''		// tell'''))
B('new over existing','C21',(GC,'''	if found {
		z.Unlock()
		return fmt.Errorf("groupchat already exists in memory")
	}
''','''	if found && !z.online {
		z.Unlock()
		return fmt.Errorf("groupchat already exists in memory")
	}
'''))
B('new racy','C21',(GC,'''	if found {
		z.Unlock()
		return fmt.Errorf("groupchat already exists in memory")
	}
''','''	if found {
		z.Unlock()
		return fmt.Errorf("groupchat already exists in memory")
	}
	z.Unlock()
	z.PrintfT(-1, "creating %v", args[2])
	z.Lock()
'''))
B('invite sent first','C21',(GC,'''	gi, err := z.inviteDBAdd(id.Identity, "come join me!", g)
	if err != nil {
''','''	gi, err := z.inviteDBAdd(id.Identity, "come join me!", g)
	if gi != nil {
		z.scheduleCRPC(true, &id.Identity, *gi)
	}
	if err != nil {
'''),(GC,'''	// send CRPC
	z.scheduleCRPC(true, &id.Identity, *gi)
''',''),(GI,'''	err = idb.Save()
	if err != nil {
		return nil, fmt.Errorf("could not save invite db: %v", err)
	}

	return &gi, nil
''','''	err = idb.Save()
	if err != nil {
		return &gi, fmt.Errorf("could not save invite db: %v", err)
	}

	return &gi, nil
'''))
B('join any token','C21',(GI,'''		if token != invite.Token {
			continue
		}
		idx, err''','''		if token != invite.Token && len(records) != 1 {
			continue
		}
		idx, err'''))
B('gc join overwrites','C21',(GC,'''	if found {
		return fmt.Errorf("group chat already exist: %v", args[2])
	}
''','''	if found {
		z.PrintfT(0, "group chat already exist: %v", args[2])
	}
'''))
INGRP='''	for _, v := range gc.Members {
		if bytes.Equal(v[:], p.From[:]) {
			inGroup = true
			break
		}
	}
'''
B('message membership ignored','C22',(PU,'''	if !inGroup {
		z.Unlock()
		z.Dbg(idZKC, "not in group: %v %x", gm.Name, p.From[:])
		return nil
	}
''','''	if !inGroup {
		z.Dbg(idZKC, "not in group: %v %x", gm.Name, p.From[:])
	}
'''))
B('message membership of any group','C22',(PU,INGRP,'''	for _, g := range z.groups {
		for _, v := range g.Members {
			if bytes.Equal(v[:], p.From[:]) {
				inGroup = true
			}
		}
	}
'''))
B('message membership by generation','C22',(PU,'	var inGroup bool\n','	inGroup := gm.Generation == gc.Generation\n'))
B('message loop skips admin','C22',(GC,'''	for i := 0; i < len(gc.Members); i++ {
		if bytes''','''	for i := 1; i < len(gc.Members); i++ {
		if bytes'''))
B('message loop stops at self','C22',(GC,'''		if bytes.Equal(gc.Members[i][:], z.id.Public.Identity[:]) {
			continue
		}
''','''		if bytes.Equal(gc.Members[i][:], z.id.Public.Identity[:]) {
			break
		}
'''))
B('message loop skips unknown','C22',(GC,'''		//z.Dbg(idSnd, "schedule CRPC")
''','''		if _, err := z.ab.FindIdentity(gc.Members[i]); err != nil {
			continue
		}
'''))
B('message to admin always','C22',(GC,'''		z.scheduleCRPC(true, &gc.Members[i], rpc.GroupMessage{
			Name:       args[2],
			Generation: gc.Generation,
			Message:    msg,
			Mode:       mode,
		})
	}
''','''		z.scheduleCRPC(true, &gc.Members[i], rpc.GroupMessage{
			Name:       args[2],
			Generation: gc.Generation,
			Message:    msg,
			Mode:       mode,
		})
		if i > 10 {
			break
		}
	}
'''))
B('list misses last','C22',(PU,'''	for i := 1; i < len(gc.Members); i++ {
		z.scheduleCRPC(true, &gc.Members[i], gc)
''','''	for i := 1; i < len(gc.Members)-1; i++ {
		z.scheduleCRPC(true, &gc.Members[i], gc)
'''))
B('kill to everyone else','C22',(GC,'''			z.scheduleCRPC(true, &gc.Members[i], rpc.GroupKill{
				Name:   args[2],''','''			z.scheduleCRPC(true, &gc.Members[i], rpc.GroupKill{
				Name:   args[1],'''))
Q('isAdmin helper',(PU,ADMKILL,'''	if !z.isAdmin(gk.Name, p.From) {
		return fmt.Errorf("spoofed group chat kill command")
	}
'''),(PU,ADMKICK,'''	if !z.isAdmin(gk.NewGroupList.Name, p.From) {
		return fmt.Errorf("kick/part was not sent by group chat " +
			"administrator")
	}
'''),(PU,'func (z *ZKC) handleGroupKill(','''// isAdmin must be called with the lock held.
func (z *ZKC) isAdmin(group string, id [zkidentity.IdentitySize]byte) bool {
	g, ok := z.groups[group]
	return ok && len(g.Members) > 0 && bytes.Equal(g.Members[0][:], id[:])
}

func (z *ZKC) handleGroupKill('''))
Q('admin by value compare',(PU,ADMKILL,ADMKILL.replace('!bytes.Equal(group.Members[0][:], p.From[:])','group.Members[0] != p.From')),
 (GC,'''		if !bytes.Equal(gc.Members[0][:], z.id.Public.Identity[:]) {
			return fmt.Errorf("not group chat administrator")
		}
		// tell''','''		if admin := gc.Members[0]; admin != z.id.Public.Identity {
			return fmt.Errorf("not group chat administrator")
		}
		// tell'''),(PU,INGRP,'''	for i := range gc.Members {
		inGroup = inGroup || gc.Members[i] == p.From
	}
'''))
Q('contains helper',(PU,INGRP,'''	inGroup = isMember(gc, p.From)
'''),(PU,'func (z *ZKC) handleGroupKill(','''func isMember(gl rpc.GroupList, id [zkidentity.IdentitySize]byte) bool {
	for _, v := range gl.Members {
		if bytes.Equal(v[:], id[:]) {
			return true
		}
	}
	return false
}

func (z *ZKC) handleGroupKill('''),(GC,'''	for _, v := range g.Members {
		if bytes.Equal(v[:], id.Identity[:]) {
			return fmt.Errorf("already a member: %v", args[3])
		}
	}
''','''	if isMember(g, id.Identity) {
		return fmt.Errorf("already a member: %v", args[3])
	}
'''))
Q('send loops by range',(GC,'''	for i := 0; i < len(gc.Members); i++ {
		if bytes.Equal(gc.Members[i][:], z.id.Public.Identity[:]) {
			continue
		}

		//z.Dbg(idSnd, "schedule CRPC")
		z.scheduleCRPC(true, &gc.Members[i], rpc.GroupMessage{
			Name:       args[2],
			Generation: gc.Generation,
			Message:    msg,
			Mode:       mode,
		})
	}
''','''	gm := rpc.GroupMessage{
		Name:       args[2],
		Generation: gc.Generation,
		Message:    msg,
		Mode:       mode,
	}
	for i := range gc.Members {
		if gc.Members[i] != z.id.Public.Identity {
			z.scheduleCRPC(true, &gc.Members[i], gm)
		}
	}
'''),(PU,'''	for i := 1; i < len(gc.Members); i++ {
		z.scheduleCRPC(true, &gc.Members[i], gc)
''','''	others := gc.Members[1:]
	for i := range others {
		z.scheduleCRPC(true, &others[i], gc)
'''))
Q('sendToMembers helper',(PU,'''	for i := 1; i < len(gc.Members); i++ {
		z.scheduleCRPC(true, &gc.Members[i], gc)
	}
''','''	z.sendToMembers(gc, gc)
'''),(PU,'func (z *ZKC) handleGroupKill(','''func (z *ZKC) sendToMembers(gl rpc.GroupList, payload interface{}) {
	for i := 1; i < len(gl.Members); i++ {
		z.scheduleCRPC(true, &gl.Members[i], payload)
	}
}

func (z *ZKC) handleGroupKill('''))
Q('part builds list by filter',(PU,'''			Members:    append(gc.Members[:i:i], gc.Members[i+1:]...),
		}
''','''		}
		for _, m := range gc.Members {
			if m != p.From {
				ngc.Members = append(ngc.Members, m)
			}
		}
'''))
Q('join adds inline',(PU,'''	gc, err = z._addIdGroupchat(gj.Name, *id)
	if err != nil {
		return fmt.Errorf("could not add identity to group chat: %v",
			err)
	}
''','''	for i := 1; i < len(gc.Members); i++ {
		if gc.Members[i] == id.Identity {
			return fmt.Errorf("could not add identity to group chat: " +
				"identity already in group")
		}
	}
	gc.Members = append(gc.Members, id.Identity)
	gc.Generation++
'''))

# ---- C18 identities, C19 server pin, C37 version ----
AW='zkclient/acceptserverfingerprint.go'; ACF='zkclient/acceptclientfingerprint.go'; WW='zkclient/welcome.go'; KAW='zkclient/kxacceptwindow.go'; SA='zkserver/account.go'; MW='zkclient/mainwindow.go'
VER2='''		// identity must be genuine and belong to the sender
		if !idkx.Identity.Verify() {
			return fmt.Errorf("could not verify identity")
		}
'''
FROM2='''		if !bytes.Equal(idkx.Identity.Identity[:], p.From[:]) {
			return fmt.Errorf("identities don't match")
		}

		// create'''
B('step2 unverified','C18',(PU,VER2,''))
B('step2 any sender','C18',(PU,FROM2,'''
		// create'''))
B('step2 compares key','C18',(PU,FROM2,FROM2.replace('idkx.Identity.Identity[:], p.From','kdb_[:], p.From').replace('bytes','kdb_ := p.From\n		if !bytes',1).replace('if !kdb_','kdb_',1)))
B('step2 directory unverified','C18',(PU,'''	// identity must be genuine and belong to the sender
	if !idkx.Identity.Verify() {
		return fmt.Errorf("could not verify identity")
	}
	if !bytes''','''	if !bytes'''))
B('step2 verify after save','C18',(PU,VER2,''),(PU,'''		z.ratchetMtx.Lock()
		err = z.updateRatchet(r, false)
		if err != nil {
			z.ratchetMtx.Unlock()
			return fmt.Errorf("could not save ratchet kx %v", err)
		}
		z.ratchetMtx.Unlock()

		// send''',VER2+'''		z.ratchetMtx.Lock()
		err = z.updateRatchet(r, false)
		if err != nil {
			z.ratchetMtx.Unlock()
			return fmt.Errorf("could not save ratchet kx %v", err)
		}
		z.ratchetMtx.Unlock()

		// send'''))
B('step2 nick trimmed after verify','C18',(PU,'''		// save identity and ratchet
		err = z.saveIdentity(idkx''','''		idkx.Identity.Nick = strings.TrimSpace(idkx.Identity.Nick)
		// save identity and ratchet
		err = z.saveIdentity(idkx'''))
B('verify own identity','C18',(PU,VER2,VER2.replace('idkx.Identity.V','z.id.Public.V')))
B('kx accept unverified','C18',(KAW,'''		if !identity.Verify() {
			ka.Status(w, true, "Could not verify public identity")
			return
		}
''',''))
B('kx accept verify not fatal','C18',(KAW,'''			ka.Status(w, true, "Could not verify public identity")
			return
''','''			ka.Status(w, true, "Could not verify public identity")
'''))
B('fingerprint anything but no','C18',(ACF,'!= "yes"','== "no"'))
B('find reply unasked','C18',(ZC,'case !pending || r','case pending && r'))
B('find reply nick free','C18',(ZC,'case !pending || r.Identity.Nick != r.Nick:','case !pending:'))
B('find reply and','C18',(ZC,'!pending || r.Identity','!pending && r.Identity'))
B('find reply unverified','C18',(ZC,'''				case !r.Identity.Verify():
					err = fmt.Errorf("could not verify "+
						"identity: %v", r.Identity.Nick)
''',''))
B('find reply pending reversed','C18',(ZC,'z.pendingIdentities[r.Nick] != nil','z.pendingIdentities[r.Identity.Nick] != nil || z.settings.Debug'))
B('account unverified','C18',(SA,'''	if !ca.PublicIdentity.Verify() {
		z.accountReplyFailure("invalid public identity", conn, ca)
		return fmt.Errorf("invalid public identity")
	}
''',''))
B('welcome unverified','C18',(WW,'''			if !pid.Verify() {
				ww.Status(w, true,
					"Could not verify remote identity")
				return
			}
''',''))
B('cert not compared','C19',(ZC,'''	if !bytes.Equal(cs.PeerCertificates[0].Raw, z.cert) {
		conn.Close()
		z.provisionalCert = cs.PeerCertificates[0].Raw
		return nil, errCert
	}
''','''	z.provisionalCert = cs.PeerCertificates[0].Raw
'''))
B('cert compared with provisional','C19',(ZC,'''!bytes.Equal(cs.PeerCertificates[0].Raw, z.cert)''','''!bytes.Equal(cs.PeerCertificates[0].Raw, z.cert) &&
		!bytes.Equal(cs.PeerCertificates[0].Raw, z.provisionalCert)'''))
B('cert mismatch logged','C19',(ZC,'''		return nil, errCert
''','''		z.Dbg(idZKC, "certificate changed")
'''),(ZC,'''PeerCertificates[0].Raw, z.cert) {
		conn.Close()
''','''PeerCertificates[0].Raw, z.cert) {
'''))
B('cert auto accepted','C19',(ZC,'''		z.provisionalCert = cs.PeerCertificates[0].Raw
		return''','''		z.cert = cs.PeerCertificates[0].Raw
		return'''))
B('empty pin accepts','C19',(ZC,'''	if !bytes.Equal(cs.PeerCertificates[0].Raw, z.cert) {''','''	if len(z.cert) != 0 &&
		!bytes.Equal(cs.PeerCertificates[0].Raw, z.cert) {'''))
B('online accepts new cert','C19',(MW,'''		mw.zkc.offline = false
		mw.zkc.Unlock()
		return''','''		mw.zkc.offline = false
		if mw.zkc.provisionalCert != nil {
			mw.zkc.cert = mw.zkc.provisionalCert
		}
		mw.zkc.Unlock()
		return'''))
B('session with own key','C19',(ZC,'kx.TheirPublicKey = &z.serverIdentity.Key','kx.TheirPublicKey = &z.id.Public.Key'))
B('server accepted unless no','C19',(AW,'!= "yes"','== "no"'))
B('server accepted blank','C19',(AW,'if strings.ToLower(aw.question) != "yes" {','if q := strings.ToLower(aw.question); q != "yes" && q != "" {'))
B('record saved before session','C19',(ZC,'''	err = z.saveServerRecord(pid, cs.PeerCertificates[0].Raw)
	if err != nil {
		return err
	}

	go''','''	go'''),(ZC,'''	conn, cs, err := z.preSessionPhase()
	if err != nil {
		return nil, err
	}

	// XXX''','''	conn, cs, err := z.preSessionPhase()
	if err != nil {
		return nil, err
	}
	if z.cert == nil {
		err = z.saveServerRecord(z.serverIdentity, cs.PeerCertificates[0].Raw)
		if err != nil {
			return nil, err
		}
	}

	// XXX'''))
B('version at least','C37',(ZC,'wmsg.Version != rpc.ProtocolVersion {','wmsg.Version < rpc.ProtocolVersion {'))
B('version unchecked','C37',(ZC,'''	if wmsg.Version != rpc.ProtocolVersion {
		return nil, fmt''','''	if wmsg.Version != rpc.ProtocolVersion {
		z.Dbg(idRPC, "version")
	}
	if len(wmsg.Properties) == 0 {
		return nil, fmt'''))
B('unknown property skipped','C37',(ZC,'return nil, fmt.Errorf("unhandled property: %v", v.Key)','z.Dbg(idRPC, "unhandled property: %v", v.Key)'))
B('unknown property required only','C37',(ZC,'return nil, fmt.Errorf("unhandled property: %v", v.Key)','''if v.Required {
				return nil, fmt.Errorf("unhandled property: %v", v.Key)
			}'''))
B('online before welcome','C37',(ZC,'''	// unmarshal payload
	_, err = unmarshal(br, &wmsg)''','''	z.online = true
	// unmarshal payload
	_, err = unmarshal(br, &wmsg)'''))
B('unwelcome falls through','C37',(ZC,'''		return nil, fmt.Errorf("%v", umsg.Reason)

	default''','''		z.PrintfT(0, "%v", umsg.Reason)

	default'''),(ZC,'''	// unmarshal payload
	_, err = unmarshal(br, &wmsg)
	if err != nil {
		return nil, fmt.Errorf("unmarshal Welcome payload failed")
	}

	if wmsg.Version != rpc.ProtocolVersion {''','''	// unmarshal payload
	_, err = unmarshal(br, &wmsg)
	if err != nil {
		z.Dbg(idRPC, "unmarshal Welcome payload failed")
	}

	if err == nil && wmsg.Version != rpc.ProtocolVersion {'''))
B('server announces old version','C37',('zkserver/zkserver.go','Version:    rpc.ProtocolVersion,','Version:    rpc.ProtocolVersion - 1,'))

Q('verifyIdentity helper',(PU,VER2+FROM2,'''		err = senderIdentity(&idkx.Identity, &p)
		if err != nil {
			return err
		}

		// create'''),(PU,'func (z *ZKC) step3IDKX(','''// senderIdentity makes sure the identity is genuine and the sender's.
func senderIdentity(id *zkidentity.PublicIdentity, p *rpc.Push) error {
	if !id.Verify() {
		return fmt.Errorf("could not verify identity")
	}
	if id.Identity != p.From {
		return fmt.Errorf("identities don't match")
	}
	return nil
}

func (z *ZKC) step3IDKX('''))
Q('find reply ifs',(ZC,'''				switch {
				case !pending || r.Identity.Nick != r.Nick:
					err = fmt.Errorf("unexpected identity: %v",
						r.Identity.Nick)
				case !r.Identity.Verify():
					err = fmt.Errorf("could not verify "+
						"identity: %v", r.Identity.Nick)
				default:
					err = z.step1IDKX(r.Identity)
				}
''','''				err = z.foundIdentity(&r, pending)
'''),(ZC,'func (z *ZKC) step1IDKX(','''func (z *ZKC) foundIdentity(r *rpc.IdentityFindReply, asked bool) error {
	id := r.Identity
	if !asked {
		return fmt.Errorf("unexpected identity: %v", id.Nick)
	}
	if id.Nick != r.Nick {
		return fmt.Errorf("unexpected identity: %v", id.Nick)
	}
	if ok := id.Verify(); !ok {
		return fmt.Errorf("could not verify identity: %v", id.Nick)
	}
	return z.step1IDKX(id)
}

func (z *ZKC) step1IDKX('''))
Q('find reply comma ok',(ZC,'''				pending = z.pendingIdentities[r.Nick] != nil
				delete''','''				pi, found := z.pendingIdentities[r.Nick]
				pending = found && pi != nil
				delete'''))
Q('cert check helper',(ZC,'''	if !bytes.Equal(cs.PeerCertificates[0].Raw, z.cert) {
		conn.Close()
		z.provisionalCert = cs.PeerCertificates[0].Raw
		return nil, errCert
	}
''','''	if err = z.checkPin(cs); err != nil {
		conn.Close()
		return nil, err
	}
'''),(ZC,'func (z *ZKC) goOnlineAndPrint(','''func (z *ZKC) checkPin(cs *tls.ConnectionState) error {
	got := cs.PeerCertificates[0].Raw
	if bytes.Equal(z.cert, got) {
		return nil
	}
	z.provisionalCert = got
	return errCert
}

func (z *ZKC) goOnlineAndPrint('''))
Q('session kx literal',(ZC,'''	kx := new(session.KX)
	kx.Conn = conn
	kx.MaxMessageSize = z.msgSize
	kx.OurPublicKey = &z.id.Public.Key
	kx.OurPrivateKey = &z.id.PrivateKey
	kx.TheirPublicKey = &z.serverIdentity.Key
''','''	me, peer := z.id, z.serverIdentity
	kx := &session.KX{
		Conn:           conn,
		MaxMessageSize: z.msgSize,
		OurPublicKey:   &me.Public.Key,
		OurPrivateKey:  &me.PrivateKey,
		TheirPublicKey: &peer.Key,
	}
'''))
Q('accept equal fold',(AW,'''		if strings.ToLower(aw.question) != "yes" {
			aw.conn.Close()
			ttk.Focus(aw.zkc.ttkWW)
			aw.zkc.focus(0)
			return
		}

		err := aw.zkc.finalizeAccountCreation(aw.conn, aw.cs, aw.pid,
			aw.token)
		if err != nil {
			aw.Status(w, true, fmt.Sprintf("%v", err))
			return
		}
''','''		answer := strings.ToLower(aw.question)
		switch answer {
		case "yes":
			err := aw.zkc.finalizeAccountCreation(aw.conn, aw.cs,
				aw.pid, aw.token)
			if err != nil {
				aw.Status(w, true, fmt.Sprintf("%v", err))
			}
		default:
			aw.conn.Close()
			ttk.Focus(aw.zkc.ttkWW)
			aw.zkc.focus(0)
		}
'''))
Q('fingerprint EqualFold',(ACF,'if strings.ToLower(aw.question) != "yes" {','if !strings.EqualFold(aw.question, "yes") {'))
Q('version switch',(ZC,'''	if wmsg.Version != rpc.ProtocolVersion {
		return''','''	switch wmsg.Version {
	case rpc.ProtocolVersion:
	default:
		return'''))
Q('properties helper',(ZC,'''		default:
			return nil, fmt.Errorf("unhandled property: %v", v.Key)
		}
	}

	// tag depth''','''		default:
			err = errUnhandled(v)
		}
		if err != nil {
			return nil, err
		}
	}

	// tag depth'''),(ZC,'''func (z *ZKC) welcomePhase(''','''func errUnhandled(p rpc.ServerProperty) error {
	return fmt.Errorf("unhandled property: %v", p.Key)
}

func (z *ZKC) welcomePhase('''))

# ---- C17 random ----
BS='blobshare/blobshare.go'; TT='tools/tools.go'; ZI='zkidentity/zkidentity.go'; ZT='tools/zkservertoken/zkservertoken.go'; RV='zkserver/rendezvous.go'; CE='zkserver/cert.go'
B('nonce error ignored','C17',(BS,'''	_, err := io.ReadFull(rand.Reader, nonce[:])
	if err != nil {
		return nil, nil, err
	}

	// encrypt''','''	io.ReadFull(rand.Reader, nonce[:])

	// encrypt'''))
B('nonce half drawn','C17',(BS,'io.ReadFull(rand.Reader, nonce[:])','io.ReadFull(rand.Reader, nonce[:16])'))
B('nonce by plain read','C17',(BS,'io.ReadFull(rand.Reader, nonce[:])','rand.Reader.Read(nonce[:])'))
B('nonce from data','C17',(BS,'io.ReadFull(rand.Reader, nonce[:])','io.ReadFull(bytes.NewReader(append(data, make([]byte, 24)...)), nonce[:])'),(BS,'import (','import (\n	"bytes"'))
B('ratchet nonce reused','C17',(RA,'''	r.randBytes(messageNonce[:])
''','''	messageNonce = headerNonce
'''),(RA,'secretbox.Seal(out, msg, &messageNonce','secretbox.Seal(out, msg, &headerNonce'))
B('ratchet weak reader','C17',(PU,'''	// create a new ratchet from idkx
	r := ratchet.New(rand.Reader)
	r.''','''	// create a new ratchet from idkx
	r := ratchet.New(bytes.NewReader(k[:]))
	r.'''))
B('randBytes swallows','C17',(RA,'''	if _, err := io.ReadFull(r.rand, buf); err != nil {
		panic(err)
	}''','''	io.ReadFull(r.rand, buf)'''))
B('uint64 error dropped','C17',(TT,'''	if err != nil {
		return 0, err
	}
	return binary.BigEndian.Uint64(b[:]), nil''','''	if err == io.EOF {
		return 0, err
	}
	return binary.BigEndian.Uint64(b[:]), nil'''))
B('invite token after failures','C17',(GI,'for retry = 5; retry > 0; retry-- {\n		token','for retry = 5; retry >= 0; retry-- {\n		token'),(GI,'	if retry == 0 {','	if retry < -1 {'))
B('invite token is time','C17',(GI,'		Token:       token,','		Token:       uint64(time.Now().UnixNano()) % 1000000,'))
B('pin four digits','C17',(RV,'token %= 1000000','token %= 10000'))
B('server token sequential','C17',(ZT,'''		x, err := tools.RandomUint64()
		if err != nil {
			return fmt.Errorf("not enough entropy")
		}
''','''		x := uint64(time.Now().UnixNano()) << 8
'''),(ZT,'''		_, err = pending.Get("", xs)''','''		_, err := pending.Get("", xs)'''))
B('identity prng swapped','C17',(ZI,'prng = rand.Reader','prng = io.Reader(bytes.NewReader(nil))'),(ZI,'	"crypto/rand"\n',''),(ZI,'import (','import (\n	"io"'))
B('ephemeral kept on failure','C17',('session/kx.go','''	pk, sk, err := sntrup4591761.GenerateKey(rand.Reader)
	if err != nil {
		return err
	}
	ephemeralMutex.Lock()
	copy(ephemeralPublic[:], pk[:])
	copy(ephemeralPrivate[:], sk[:])
	ephemeralMutex.Unlock()
	return nil''','''	pk, sk, err := sntrup4591761.GenerateKey(rand.Reader)
	ephemeralMutex.Lock()
	copy(ephemeralPublic[:], pk[:])
	copy(ephemeralPrivate[:], sk[:])
	ephemeralMutex.Unlock()
	return err'''))
B('ephemeral after accepting','C17',('zkserver/zkserver.go','''	session.Init()

	go func() {
		for {
			conn, err := l.Accept()''','''	go func() {
		for {
			conn, err := l.Accept()'''),('zkserver/zkserver.go','''			go z.preSession(tls.Server(conn, &config))
		}
	}()
''','''			go z.preSession(tls.Server(conn, &config))
		}
	}()

	session.Init()
'''))
Q('randomUint64 rewritten',(TT,'''	var b [8]byte
	_, err := io.ReadFull(r, b[:])
	if err != nil {
		return 0, err
	}
	return binary.BigEndian.Uint64(b[:]), nil''','''	b := make([]byte, 8)
	if n, err := io.ReadFull(r, b); err != nil || n != len(b) {
		return 0, err
	}
	return binary.BigEndian.Uint64(b), nil'''))
Q('nonce helper',(BS,'''	var (
		nonce [24]byte
	)

	// random nonce
	_, err := io.ReadFull(rand.Reader, nonce[:])
	if err != nil {
		return nil, nil, err
	}

	// encrypt data
	return secretbox.Seal(nil, data, &nonce, key), &nonce, nil''','''	nonce, err := newNonce()
	if err != nil {
		return nil, nil, err
	}
	sealed := secretbox.Seal(nil, data, nonce, key)
	return sealed, nonce, nil'''),(BS,'func Encrypt(','''func newNonce() (*[24]byte, error) {
	n := new([24]byte)
	if _, err := rand.Read(n[:]); err != nil {
		return nil, err
	}
	return n, nil
}

func Encrypt('''),(BS,'''	_, err := io.ReadFull(rand.Reader, salt[:])
	if err != nil {
		return nil, nil, err
	}
''','''	if _, err := io.ReadFull(rand.Reader, salt[:]); err != nil {
		return nil, nil, err
	}
'''))
Q('token loop counted up',(GI,'''	for retry = 5; retry > 0; retry-- {
		token, err = tools.RandomUint64()
		if err != nil {
			// out of entropy
			time.Sleep(500 * time.Millisecond)
			continue
		}

		// make token a bit shorter
		token %= 1000000

		break
	}
	if retry == 0 {
		return nil, fmt.Errorf("out of entropy")
	}
''','''	for ; ; retry++ {
		if retry == 5 {
			return nil, fmt.Errorf("out of entropy")
		}
		token, err = tools.RandomUint64()
		if err == nil {
			break
		}
		// out of entropy
		time.Sleep(500 * time.Millisecond)
	}
	// make token a bit shorter
	token = token % 1000000
'''))
Q('pin helper',(RV,'''		token, err := tools.RandomUint64()
		if err != nil {
			// out of entropy
			time.Sleep(500 * time.Millisecond)
			retry--
			continue
		}
		token %= 1000000
		tokenS := strconv.FormatUint(token, 10)
''','''		tokenS, err := newPIN()
		if err != nil {
			// out of entropy
			time.Sleep(500 * time.Millisecond)
			retry--
			continue
		}
'''),(RV,'func (z *ZKS) handleRendezvous(','''// newPIN draws a PIN.
func newPIN() (string, error) {
	token, err := tools.RandomUint64()
	if err != nil {
		return "", err
	}
	return strconv.FormatUint(token%1000000, 10), nil
}

func (z *ZKS) handleRendezvous('''))
Q('identity uses rand.Reader',(ZI,'ed25519.GenerateKey(prng)','ed25519.GenerateKey(rand.Reader)'))
Q('listen helper',('zkserver/zkserver.go','''	session.Init()

	go func() {
		for {
			conn, err := l.Accept()
			if err != nil {
				z.Error(idApp, "Accept: %v", err)
				continue
			}
			conn.(*net.TCPConn).SetKeepAlive(true)
			go z.preSession(tls.Server(conn, &config))
		}
	}()
''','''	session.Init()
	go z.serve(l, &config)
'''),('zkserver/zkserver.go','func (z *ZKS) listen(','''func (z *ZKS) serve(l net.Listener, config *tls.Config) {
	for {
		conn, err := l.Accept()
		if err != nil {
			z.Error(idApp, "Accept: %v", err)
			continue
		}
		conn.(*net.TCPConn).SetKeepAlive(true)
		go z.preSession(tls.Server(conn, config))
	}
}

func (z *ZKS) listen('''))
CHK = 'zkclient/chunk.go'
ZCM = 'zkclient/zkclient.go'
GCM = 'zkclient/groupchat.go'
LOGP = 'path.Join(z.settings.Root, logsDir, path.Base(filename))'
B('log path from nick', 'C39', (ZCM, LOGP, 'path.Join(z.settings.Root, logsDir, filename)'))
B('log path cleaned only', 'C39', (ZCM, LOGP, 'path.Join(z.settings.Root, logsDir, path.Clean(filename))'))
B('received name not reduced', 'C39', (CHK, '''		filename = path.Base(path.Clean("/" +
			strings.Replace(cn.Filename, "\\\\", "/", -1)))
''', '''		filename = path.Clean(
			strings.Replace(cn.Filename, "\\\\", "/", -1))
'''))
B('spool by raw name', 'C39', (CHK, '''	spool := path.Join(dir, hex.EncodeToString(cn.Digest[:]))
''', '''	spool := path.Join(dir, hex.EncodeToString(cn.Digest[:])+cn.MIME)
'''))
B('group save unchecked', 'C39', (GCM, '''	if err := validName(name); err != nil {
		return err
	}
	filename := path.Join(z.settings.Root, groupchatDir, name)

	gc, found''', '''	filename := path.Join(z.settings.Root, groupchatDir, name)

	gc, found'''))
B('valid name allows dots', 'C39', (GCM, 'if name == "" || name == "." || name == ".." {', 'if name == "" || name == "." {'))
B('valid letters slash', 'C39', (GCM, 'const validLetters = "abc', 'const validLetters = "/abc'))
Q('log path by helper', (ZCM, LOGP, 'z.logPath(filename)'), (ZCM, 'func (z *ZKC) log(id int', '''func (z *ZKC) logPath(name string) string {
	return path.Join(z.settings.Root, logsDir, path.Base(name))
}

func (z *ZKC) log(id int'''))
Q('received name by helper', (CHK, '''		filename = path.Base(path.Clean("/" +
			strings.Replace(cn.Filename, "\\\\", "/", -1)))
''', '''		filename = plainName(cn.Filename)
'''), (CHK, 'func (z *ZKC) handleChunk(', '''func plainName(s string) string {
	s = strings.Replace(s, "\\\\", "/", -1)
	if !strings.HasPrefix(s, "/") {
		s = "/" + s
	}
	return path.Base(path.Clean(s))
}

func (z *ZKC) handleChunk('''))
Q('log nick replaced', (ZCM, LOGP, 'path.Join(z.settings.Root, logsDir, strings.Replace(filename, "/", "_", -1))'))
Q('log nick mapped', (ZCM, LOGP, '''path.Join(z.settings.Root, logsDir, strings.Map(func(r rune) rune {
		if r == '/' {
			return '_'
		}
		return r
	}, filename))'''))
Q('log nick replacer', (ZCM, LOGP, 'path.Join(z.settings.Root, logsDir, strings.NewReplacer("/", "_").Replace(filename))'))
B('log nick replaced once', 'C39', (ZCM, LOGP, 'path.Join(z.settings.Root, logsDir, strings.Replace(filename, "/", "_", 1))'))
SND = 'zkclient/send.go'
CEQ = """		if !bytes.Equal(fd[:], cn.Digest[:]) {
			return fmt.Errorf("Incoming file from %v corrupt: %v",
				pid.Nick, cn.Filename)
		}
"""
B('digest of other file', 'C23', (CHK, 'goutil.FileSHA256(spool)', 'goutil.FileSHA256(desc)'))
B('digest mismatch only shown', 'C23', (CHK, CEQ, """		if !bytes.Equal(fd[:], cn.Digest[:]) {
			z.PrintfT(0, "Incoming file from %v corrupt: %v",
				pid.Nick, cn.Filename)
		}
"""))
B('digest against itself', 'C23', (CHK, 'bytes.Equal(fd[:], cn.Digest[:])', 'bytes.Equal(fd[:], fd[:])'))
B('chunk offset unchecked', 'C23', (CHK, 'if fi.Size() != int64(c.Offset) {', 'if fi.Size() < int64(c.Offset) {'))
B('chunk offset later', 'C23', (CHK, 'if fi.Size() != int64(c.Offset) {', 'if fi.Size() > int64(c.Offset) {'))
B('chunk bound without payload', 'C23', (CHK, """	if uint64(len(c.Payload)) > cn.Size ||
		c.Offset > cn.Size-uint64(len(c.Payload)) {
""", """	if c.Offset > cn.Size {
"""))
B('chunk bound wraps', 'C23', (CHK, """	if uint64(len(c.Payload)) > cn.Size ||
		c.Offset > cn.Size-uint64(len(c.Payload)) {
""", """	if c.Offset > cn.Size-uint64(len(c.Payload)) {
"""))
B('shared descriptor', 'C23', (CHK, """	desc := spool + "." + descriptor

	// obtain""", """	desc := path.Join(dir, descriptor)

	// obtain"""), (CHK, """	desc := spool + "." + descriptor
	os.""", """	desc := path.Join(dir, descriptor)
	os."""))
B('descriptor elsewhere', 'C23', (CHK, """	desc := spool + "." + descriptor

	// obtain""", """	desc := spool + "_" + descriptor

	// obtain"""))
B('spool shared by senders', 'C23', (CHK, """	dir := path.Join(z.settings.Root, spoolDir,
		hex.EncodeToString(p.From[:]))
	spool := path.Join(dir, hex.EncodeToString(c.Digest[:]))
""", """	dir := path.Join(z.settings.Root, spoolDir)
	spool := path.Join(dir, hex.EncodeToString(c.Digest[:]))
"""), (CHK, """	dir := path.Join(z.settings.Root, spoolDir,
		hex.EncodeToString(p.From[:]))
	spool := path.Join(dir, hex.EncodeToString(cn.Digest[:]))
""", """	dir := path.Join(z.settings.Root, spoolDir)
	spool := path.Join(dir, hex.EncodeToString(cn.Digest[:]))
"""))
B('received file replaces', 'C23', (CHK, """			if err != nil {
				break
			}
			filename = "1" + filename
""", """			if err != nil || len(filename) > 200 {
				break
			}
			filename = "1" + filename
"""))
B('received free other path', 'C23', (CHK, '_, err = os.Stat(fullpath)', '_, err = os.Stat(path.Join(dir, filename))'))
B('chunk buffer hoisted', 'C23', (SND, """	for offset := 0; ; {
		chunk := make([]byte, z.chunkSize)
		count, err := f.Read(chunk)
""", """	buf := make([]byte, z.chunkSize)
	for offset := 0; ; {
		chunk := buf
		count, err := f.Read(chunk)
"""))
B('chunk not cut', 'C23', (SND, '		chunk = chunk[:count]\n', ''))
B('offset by chunk size', 'C23', (SND, 'offset += count', 'offset += len(chunk[:0]) + int(z.chunkSize)'))
B('offset not advanced', 'C23', (SND, '		offset += count\n', '		if count == int(z.chunkSize) {\n			offset += count\n		}\n'))
B('no rewind', 'C23', (SND, """	_, err = f.Seek(0, io.SeekStart)
	if err != nil {
		z.PrintfT(0, "send failed (%v->%v): seek %v",
""", """	_, err = f.Seek(0, io.SeekCurrent)
	if err != nil {
		z.PrintfT(0, "send failed (%v->%v): seek %v",
"""))
B('chunk high', 'C23', (SND, 'z.scheduleCRPC(false, &id, c)', 'z.scheduleCRPC(true, &id, c)'), (SND, 'z.scheduleCRPC(true, &id, *cn)', 'z.scheduleCRPC(false, &id, *cn)'))
B('digest after announcement', 'C23', (SND, """	copy(cn.Digest[:], h.Sum(nil))

	// rewind""", """	// rewind"""), (SND, """	z.scheduleCRPC(true, &id, *cn)
""", """	z.scheduleCRPC(true, &id, *cn)
	copy(cn.Digest[:], h.Sum(nil))
"""))
B('last part dropped', 'C23', (SND, 'f.Read(chunk)', 'io.ReadFull(f, chunk)'), (SND, 'if errors.Is(err, io.EOF) {', 'if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {'))
B('size of chunk announced', 'C23', (SND, 'Size:        uint64(fi.Size()),', 'Size:        z.chunkSize,'))
Q('chunk bound by sum', (CHK, """	if uint64(len(c.Payload)) > cn.Size ||
		c.Offset > cn.Size-uint64(len(c.Payload)) {
""", """	end := c.Offset + uint64(len(c.Payload))
	if end > cn.Size {
"""))
Q('free name helper', (CHK, """		for {
			fullpath = path.Join(z.settings.Root, spoolDir,
				filename)
			_, err = os.Stat(fullpath)
			if err != nil {
				break
			}
			filename = "1" + filename
		}
""", """		fullpath = z.freeName(filename)
"""), (CHK, 'func (z *ZKC) handleChunk(', """func (z *ZKC) freeName(filename string) string {
	for {
		fullpath := path.Join(z.settings.Root, spoolDir, filename)
		if _, err := os.Stat(fullpath); err != nil {
			return fullpath
		}
		filename = "1" + filename
	}
}

func (z *ZKC) handleChunk("""))
Q('free name loop', (CHK, """		for {
			fullpath = path.Join(z.settings.Root, spoolDir,
				filename)
			_, err = os.Stat(fullpath)
			if err != nil {
				break
			}
			filename = "1" + filename
		}
""", """		for z.inSpool(filename) {
			filename = "1" + filename
		}
		fullpath = path.Join(z.settings.Root, spoolDir, filename)
"""), (CHK, 'func (z *ZKC) handleChunk(', """func (z *ZKC) inSpool(filename string) bool {
	_, err := os.Stat(path.Join(z.settings.Root, spoolDir, filename))
	return err == nil
}

func (z *ZKC) handleChunk("""))
Q('spool paths helper', (CHK, """	dir := path.Join(z.settings.Root, spoolDir,
		hex.EncodeToString(p.From[:]))
	spool := path.Join(dir, hex.EncodeToString(c.Digest[:]))
	desc := spool + "." + descriptor
""", """	_, spool, desc := z.spoolPaths(p.From, c.Digest)
"""), (CHK, """	dir := path.Join(z.settings.Root, spoolDir,
		hex.EncodeToString(p.From[:]))
	spool := path.Join(dir, hex.EncodeToString(cn.Digest[:]))
	desc := spool + "." + descriptor
""", """	dir, spool, desc := z.spoolPaths(p.From, cn.Digest)
"""), (CHK, 'func (z *ZKC) handleChunk(', """func (z *ZKC) spoolPaths(from, digest [32]byte) (string, string, string) {
	dir := path.Join(z.settings.Root, spoolDir,
		hex.EncodeToString(from[:]))
	spool := path.Join(dir, hex.EncodeToString(digest[:]))
	return dir, spool, spool + "." + descriptor
}

func (z *ZKC) handleChunk("""))
Q('finish helper', (CHK, '	"bytes"\n', ''), (CHK, """		fd, err := goutil.FileSHA256(spool)
		if err != nil {
			return fmt.Errorf("could not digest %v: %v",
				spool, err)
		}
"""+CEQ, """		if err := digestMatches(spool, cn.Digest); err != nil {
			return fmt.Errorf("Incoming file from %v: %v",
				pid.Nick, err)
		}
"""), (CHK, 'func (z *ZKC) handleChunk(', """func digestMatches(file string, digest [32]byte) error {
	fd, err := goutil.FileSHA256(file)
	if err != nil {
		return err
	}
	if *fd != digest {
		return fmt.Errorf("corrupt")
	}
	return nil
}

func (z *ZKC) handleChunk("""))
Q('send readfull', (SND, """		count, err := f.Read(chunk)
		if err != nil {
""", """		count, err := io.ReadFull(f, chunk)
		if err != nil && !errors.Is(err, io.ErrUnexpectedEOF) {
"""))
Q('send chunk helper', (SND, """		c := rpc.Chunk{
			Offset:  uint64(offset),
			Payload: chunk,
		}
		copy(c.Digest[:], h.Sum(nil))

		// and send it
		z.scheduleCRPC(false, &id, c) // should block

		offset += count
""", """		z.sendChunk(&id, cn, offset, chunk)

		offset += len(chunk)
"""), (SND, '// XXX should echo', """func (z *ZKC) sendChunk(id *[zkidentity.IdentitySize]byte, cn *rpc.ChunkNew,
	offset int, payload []byte) {

	z.scheduleCRPC(false, id, rpc.Chunk{
		Offset:  uint64(offset),
		Digest:  cn.Digest,
		Payload: payload,
	})
}

// XXX should echo"""))
Q('send offset uint64', (SND, 'for offset := 0; ; {', 'for offset := uint64(0); ; {'), (SND, 'Offset:  uint64(offset),', 'Offset:  offset,'), (SND, 'offset += count', 'offset += uint64(count)'))

# C38
NETC = 'zkclient/net.go'
B('client tls10', 'C38', (NETC, 'tls.VersionTLS12', 'tls.VersionTLS10'))
B('client no min version', 'C38', (NETC, 'MinVersion: tls.VersionTLS12,\n', ''))
B('client cbc suite', 'C38', (NETC, '			tls.TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384,\n', '			tls.TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384,\n			tls.TLS_ECDHE_ECDSA_WITH_AES_256_CBC_SHA,\n'))
B('server suites only sometimes', 'C38', (ZS, '''		CipherSuites: []uint16{
			tls.TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384,
		},
	}
	l, err''', '''	}
	if z.settings.AllowIdentify {
		config.CipherSuites = []uint16{
			tls.TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384,
		}
	}
	l, err'''))
B('server plain when keepalive fails', 'C38', (ZS, '''			conn.(*net.TCPConn).SetKeepAlive(true)
			go z.preSession(tls.Server(conn, &config))
''', '''			tc, ok := conn.(*net.TCPConn)
			if !ok {
				go z.preSession(conn)
				continue
			}
			tc.SetKeepAlive(true)
			go z.preSession(tls.Server(conn, &config))
'''))
B('server peeks', 'C38', (ZS, '''			conn.(*net.TCPConn).SetKeepAlive(true)
''', '''			conn.(*net.TCPConn).SetKeepAlive(true)
			fmt.Fprintf(conn, "zkc\\n")
'''))
B('client plain dial', 'C38', (ZC, '''	conn, err := tls.DialWithDialer(&net.Dialer{
		Deadline:  time.Now().Add(5 * time.Second),
		KeepAlive: time.Second,
	}, "tcp", z.serverAddress, tlsConfig())
	if err != nil {''', '''	d := &net.Dialer{
		Deadline:  time.Now().Add(5 * time.Second),
		KeepAlive: time.Second,
	}
	conn, err := tls.DialWithDialer(d, "tcp", z.serverAddress, tlsConfig())
	if err != nil && strings.HasPrefix(z.serverAddress, "127.") {
		c, err := d.Dial("tcp", z.serverAddress)
		if err == nil {
			return c, &tls.ConnectionState{}, nil
		}
	}
	if err != nil {'''))
B('client default config', 'C38', (ZC, 'z.serverAddress, tlsConfig())', 'z.serverAddress, nil)'))
B('server error past session', 'C38', (ZS, '''				err = z.unwelcome(kx, "administrator has "+
					"disabled your account")
''', '''				_, err = xdr.Marshal(conn, "administrator has "+
					"disabled your account")
'''))
B('key log', 'C38', (NETC, '		InsecureSkipVerify: true,\n', '		InsecureSkipVerify: true,\n		KeyLogWriter: os.Stderr,\n'), (NETC, '	"crypto/tls"\n', '	"crypto/tls"\n	"os"\n'))
B('server session over inner conn', 'C38', (ZS, '			kx.Conn = conn\n', '			kx.Conn = conn\n			if tc, ok := conn.(*tls.Conn); ok {\n				kx.Conn = tc.NetConn()\n			}\n'))
Q('tls config shared', (ZS, '''	config := tls.Config{
		Certificates: []tls.Certificate{cert},
		MinVersion:   tls.VersionTLS12,
		CipherSuites: []uint16{
			tls.TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384,
		},
	}
''', '''	config := newTLSConfig(cert)
'''), (ZS, 'tls.Server(conn, &config)', 'tls.Server(conn, config)'), (ZS, 'func (z *ZKS) listen() error {', '''const minTLS = tls.VersionTLS12

var suites = []uint16{tls.TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384}

func newTLSConfig(cert tls.Certificate) *tls.Config {
	config := &tls.Config{Certificates: []tls.Certificate{cert}}
	hardenTLS(config)
	return config
}

func hardenTLS(c *tls.Config) {
	c.MinVersion = minTLS
	c.CipherSuites = append(c.CipherSuites, suites...)
}

func (z *ZKS) listen() error {'''))
Q('tls listener', (ZS, 'l, err := net.Listen("tcp", z.settings.Listen)', 'l, err := tls.Listen("tcp", z.settings.Listen, &config)'), (ZS, '''			conn.(*net.TCPConn).SetKeepAlive(true)
			go z.preSession(tls.Server(conn, &config))
''', '''			go z.preSession(conn)
'''))
Q('tls accept helper', (ZS, '''			conn.(*net.TCPConn).SetKeepAlive(true)
			go z.preSession(tls.Server(conn, &config))
''', '''			go z.accepted(conn, &config)
'''), (ZS, 'func (z *ZKS) listen() error {', '''func (z *ZKS) accepted(conn net.Conn, config *tls.Config) {
	if c, ok := conn.(*net.TCPConn); ok {
		c.SetKeepAlive(true)
	}
	z.Dbg(idApp, "accepted %v", conn.RemoteAddr())
	z.preSession(tls.Server(conn, config))
}

func (z *ZKS) listen() error {'''))
Q('client dial in two steps', (ZC, '''	conn, err := tls.DialWithDialer(&net.Dialer{
		Deadline:  time.Now().Add(5 * time.Second),
		KeepAlive: time.Second,
	}, "tcp", z.serverAddress, tlsConfig())
''', '''	raw, err := (&net.Dialer{
		Deadline:  time.Now().Add(5 * time.Second),
		KeepAlive: time.Second,
	}).Dial("tcp", z.serverAddress)
	if err != nil {
		return nil, nil, fmt.Errorf("could not dial: %v", err)
	}
	raw.SetDeadline(time.Now().Add(5 * time.Second))
	conn := tls.Client(raw, tlsConfig())
	err = conn.Handshake()
	if err == nil {
		raw.SetDeadline(time.Time{})
	} else {
		raw.Close()
	}
'''))

# C26
ZXP = 'tools/zkexport/zkexport.go'
B('server identity world readable', 'C26', (ZS, 'tools.ZKSIdentityFilename), id, 0600)', 'tools.ZKSIdentityFilename), id, 0644)'))
B('account root open', 'C26', (AC, 'os.MkdirAll(root, 0700)', 'os.MkdirAll(root, 0755)'))
B('chunk created open', 'C26', (CHK, 'fs, err := os.OpenFile(spool, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0600)', 'fs, err := os.OpenFile(spool, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)'))
B('log opened up', 'C26', ('debug/debug.go', '	f.Close()\n\n	d := Debug{', '	f.Chmod(0640)\n	f.Close()\n\n	d := Debug{'))
B('mode from default', 'C26', ('debug/debug.go', '''func New(filename, format string) (*Debug, error) {
	// make sure we can open file
	f, err := os.OpenFile(filename, os.O_CREATE|os.O_RDWR|os.O_APPEND, 0600)
''', '''var mode os.FileMode = 0600

func New(filename, format string) (*Debug, error) {
	// make sure we can open file
	if format == "" {
		mode = 0664
	}
	f, err := os.OpenFile(filename, os.O_CREATE|os.O_RDWR|os.O_APPEND, mode)
'''))
B('export full identity', 'C26', (ZXP, '''	var blob bytes.Buffer
	_, err = xdr.Marshal(&blob, cr)
''', '''	var blob bytes.Buffer
	fi, err := fetchClientFullIdentity(root)
	if err != nil {
		return err
	}
	if verbose {
		_, err = xdr.Marshal(&blob, fi)
	} else {
		_, err = xdr.Marshal(&blob, cr)
	}
'''))
B('export dump identity', 'C26', (ZXP, '''		spew.Config.ContinueOnMethod = true
		spew.Dump(cr)
''', '''		spew.Config.ContinueOnMethod = true
		fi, _ := fetchClientFullIdentity(root)
		spew.Dump(cr, fi)
'''))
B('identity bytes logged', 'C26', (ZS, '''	z.id, err = zkidentity.UnmarshalFullIdentity(id)
	if err != nil {
		return err
''', '''	z.id, err = zkidentity.UnmarshalFullIdentity(id)
	if err != nil {
		z.Error(idApp, "invalid identity %x", id)
		return err
'''))
B('session key in error', 'C26', (KX, '''func (kx *KX) Close() {
''', '''func (kx *KX) String() string {
	return fmt.Sprintf("kx %x", kx.readKey)
}

func (kx *KX) Close() {
'''), (ZS, '''				z.Error(idApp, "kx.Respond: %v %v",
					conn.RemoteAddr(),
''', '''				z.Error(idApp, "kx.Respond: %v %v %v",
					conn.RemoteAddr(), kx,
'''), (KX, '	"errors"\n', '	"errors"\n	"fmt"\n'))
B('diagnostics on', 'C26', (ZCM, '''		z.EnableDebug()
''', '''		z.EnableDebug()
		session.SetDiagnostic(func(id int, f string, a ...interface{}) {
			z.Dbg(id, f, a...)
		})
'''))
B('chain key in error', 'C26', (RA, '''		msg, ok := secretbox.Open(nil, sealedMessage, &nonce, &messageKey)
		if !ok {
			return nil, errors.New("ratchet: corrupt message")
''', '''		msg, ok := secretbox.Open(nil, sealedMessage, &nonce, &messageKey)
		if !ok {
			return nil, fmt.Errorf("ratchet: corrupt message %x", messageKey[:4])
'''), (RA, '	"errors"\n', '	"errors"\n	"fmt"\n'))
B('ratchet state dumped', 'C26', (ID, '''func (z *ZKC) updateRatchet(''', '''func (z *ZKC) dumpRatchet(r *ratchet.Ratchet) string {
	return spew.Sdump(r.Marshal(time.Now(), time.Hour))
}

func (z *ZKC) updateRatchet('''), (ID, '	"github.com/companyzero/zkc/ratchet"\n', '	"github.com/companyzero/zkc/ratchet"\n	"github.com/davecgh/go-spew/spew"\n'), (ID, '''	f, err := ioutil.TempFile(fullPath, rf)
''', '''	z.T(idZKC, "ratchet %v", z.dumpRatchet(r))
	f, err := ioutil.TempFile(fullPath, rf)
'''))
B('kx secret in exchange', 'C26', (RA, '''	r.MyHalf = k
''', '''	r.MyHalf = k
	kx.Public = append(kx.Public, k[:]...)
'''))
Q('mode constant', ('debug/debug.go', '''	f, err := os.OpenFile(filename, os.O_CREATE|os.O_RDWR|os.O_APPEND, 0600)
''', '''	f, err := open(filename, private)
'''), ('debug/debug.go', 'func New(filename', '''const private os.FileMode = 0600

func open(filename string, mode os.FileMode) (*os.File, error) {
	return os.OpenFile(filename, os.O_CREATE|os.O_RDWR|os.O_APPEND, mode)
}

func New(filename'''))
Q('log identity type and fingerprint', (ZS, '''	z.id, err = zkidentity.UnmarshalFullIdentity(id)
	if err != nil {
		return err
	}
''', '''	z.id, err = zkidentity.UnmarshalFullIdentity(id)
	if err != nil {
		z.Error(idApp, "invalid identity: %v bytes: %v", len(id), err)
		return err
	}
	z.Dbg(idApp, "%T %v %v", z.id, z.id.Public.Fingerprint(), z.id.Public)
'''))

# C35
B('value not checked', 'C35', (IN, "	if !validKey(key) || !validValue(value) {\n", "	if !validKey(key) {\n"))
B('key not checked', 'C35', (IN, "	if !validKey(key) || !validValue(value) {\n", "	if !validValue(value) {\n"))
B('table not checked', 'C35', (IN, """	if !validTable(table) {
		return
	}
""", ""))
B('equals sign in key', 'C35', (IN, """	return validValue(table) && !strings.Contains(table, "=")
""", """	return validValue(table)
"""))
B('comment key', 'C35', (IN, " && key[0] != ';' && key[0] != '#'", " && key[0] != ';'"))
B('empty key', 'C35', (IN, '	return key != "" && validTable(key) && key[0]', '	return validTable(key) && len(key) < 1000 && (key+" ")[0]'))
B('value not trimmed', 'C35', (IN, """	return strings.TrimSpace(value) == value &&
		!strings.Contains(value, "\\n")
""", """	return !strings.Contains(value, "\\n")
"""))
B('default table among others', 'C35', (IN, """	for rk, rv := range i.tables[""] {
		fmt.Fprintf(&b, "%v = %v\\n", rk, rv)
	}
""", ""), (IN, """		if tk == "" {
			continue
		}
		fmt.Fprintf(&b, "[%v]\\n", tk)
""", """		if tk != "" {
			fmt.Fprintf(&b, "[%v]\\n", tk)
		}
"""))
B('default table last', 'C35', (IN, """	for rk, rv := range i.tables[""] {
		fmt.Fprintf(&b, "%v = %v\\n", rk, rv)
	}
	fmt.Fprintf(&b, "\\n")
""", ""), (IN, """	_, err = f.Write(b.Bytes())
""", """	for rk, rv := range i.tables[""] {
		fmt.Fprintf(&b, "%v = %v\\n", rk, rv)
	}
	_, err = f.Write(b.Bytes())
"""))
B('default table not written', 'C35', (IN, """	for rk, rv := range i.tables[""] {
		fmt.Fprintf(&b, "%v = %v\\n", rk, rv)
	}
	fmt.Fprintf(&b, "\\n")
""", ""))
B('empty values left out', 'C35', (IN, """		for rk, rv := range tv {
			fmt""", """		for rk, rv := range tv {
			if rv == "" {
				continue
			}
			fmt"""))
B('empty tables left out', 'C35', (IN, """		if tk == "" {
			continue
""", """		if tk == "" || len(tv) == 0 {
			continue
"""))
B('key folded when set', 'C35', (IN, "	s[key] = value\n", "	s[strings.ToLower(key)] = value\n"))
B('value folded when set', 'C35', (IN, "	s[key] = value\n", "	s[key] = strings.ToLower(value)\n"))
Q('ini any', (IN, """	return validValue(table) && !strings.Contains(table, "=")
""", """	if strings.ContainsAny(table, "=") {
		return false
	}
	return validValue(table)
"""), (IN, " && key[0] != ';' && key[0] != '#'", ' && !strings.HasPrefix(key, ";") && !strings.HasPrefix(key, "#")'))
Q('ini sorted', (IN, """		for rk, rv := range tv {
			fmt.Fprintf(&b, "%v = %v\\n", rk, rv)
		}
""", """		keys := make([]string, 0, len(tv))
		for rk := range tv {
			keys = append(keys, rk)
		}
		sort.Strings(keys)
		for _, rk := range keys {
			fmt.Fprintf(&b, "%v = %v\\n", rk, tv[rk])
		}
"""), (IN, '	"path"\n', '	"path"\n	"sort"\n'))
Q('ini helper', (IN, """	for rk, rv := range i.tables[""] {
		fmt.Fprintf(&b, "%v = %v\\n", rk, rv)
	}
	fmt.Fprintf(&b, "\\n")
""", """	writeTable(&b, "", i.tables[""])
"""), (IN, """		fmt.Fprintf(&b, "[%v]\\n", tk)
		for rk, rv := range tv {
			fmt.Fprintf(&b, "%v = %v\\n", rk, rv)
		}
		fmt.Fprintf(&b, "\\n")
""", """		writeTable(&b, tk, tv)
"""), (IN, "func (i *INIDB) prune() error {", """func writeTable(b *bytes.Buffer, name string, t ini.Section) {
	if name != "" {
		fmt.Fprintf(b, "[%v]\\n", name)
	}
	for k, v := range t {
		fmt.Fprintf(b, "%v = %v\\n", k, v)
	}
	b.WriteString("\\n")
}

func (i *INIDB) prune() error {"""))
B('table without header', 'C35', (IN, """		fmt.Fprintf(&b, "[%v]\\n", tk)
""", ""))
Q('ini sorted all', (IN, """	for rk, rv := range i.tables[""] {
		fmt.Fprintf(&b, "%v = %v\\n", rk, rv)
	}
	fmt.Fprintf(&b, "\\n")
	for tk, tv := range i.tables {
		if tk == "" {
			continue
		}
		fmt.Fprintf(&b, "[%v]\\n", tk)
		for rk, rv := range tv {
			fmt.Fprintf(&b, "%v = %v\\n", rk, rv)
		}
		fmt.Fprintf(&b, "\\n")
	}
""", """	names := make([]string, 0, len(i.tables))
	for tk := range i.tables {
		names = append(names, tk)
	}
	sort.Strings(names)
	for _, tk := range names {
		if tk != "" {
			fmt.Fprintf(&b, "[%v]\\n", tk)
		}
		for _, rk := range keysOf(i.tables[tk]) {
			fmt.Fprintf(&b, "%v = %v\\n", rk, i.tables[tk][rk])
		}
		fmt.Fprintf(&b, "\\n")
	}
"""), (IN, "func (i *INIDB) prune() error {", """func keysOf(t ini.Section) []string {
	keys := make([]string, 0, len(t))
	for k := range t {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
}

func (i *INIDB) prune() error {"""), (IN, '	"path"\n', '	"path"\n	"sort"\n'))
Q('ini sorted keys', (IN, """	for rk, rv := range i.tables[""] {
		fmt.Fprintf(&b, "%v = %v\\n", rk, rv)
	}
""", """	for _, rk := range keysOf(i.tables[""]) {
		fmt.Fprintf(&b, "%v = %v\\n", rk, i.tables[""][rk])
	}
"""), (IN, """		for rk, rv := range tv {
			fmt.Fprintf(&b, "%v = %v\\n", rk, rv)
		}
""", """		for _, rk := range keysOf(tv) {
			fmt.Fprintf(&b, "%v = %v\\n", rk, tv[rk])
		}
"""), (IN, "func (i *INIDB) prune() error {", """func keysOf(t ini.Section) []string {
	keys := make([]string, 0, len(t))
	for k := range t {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
}

func (i *INIDB) prune() error {"""), (IN, '	"path"\n', '	"path"\n	"sort"\n'))

# C33
TG = 'tagstack/tagstack.go'
B('tag back after write', 'C33', (MS, '''		z.Lock()
		z.tagCallback[tag] = nil
		z.Unlock()
		// return tag
''', '''		// return tag
'''))
B('tag lost when ratchet not saved', 'C33', (MS, '''		err2 := z.tagStack.Push(tag)
		if err2 != nil {
			return fmt.Errorf("could not push tag, internal "+
				"state corrupt, please quit: %v %v", err, err2)
		}
		return fmt.Errorf("critical error: could not update ratchet: %v",
''', '''		return fmt.Errorf("critical error: could not update ratchet: %v",
'''))
B('tag lost when too early', 'C33', (MS, '''	// compose RPC
	m, err := z.crpc(r, payload)
	if err != nil {
		return fmt.Errorf("could not compose %T: %v", payload, err)
	}

	// message
	tag, err := z.tagStack.Pop()
	if err != nil {
		return fmt.Errorf("could not obtain tag: %v", err)
	}
''', '''	// message
	tag, err := z.tagStack.Pop()
	if err != nil {
		return fmt.Errorf("could not obtain tag: %v", err)
	}

	// compose RPC
	m, err := z.crpc(r, payload)
	if err != nil {
		return fmt.Errorf("could not compose %T: %v", payload, err)
	}
'''))
B('callback recorded late', 'C33', (MS, '''	z.Lock()
	z.tagCallback[tag] = &cb{
		callback: f,
		to:       *r.TheirIdentityPublic,
	}
	z.Unlock()

	msg := &rpc''', '''	msg := &rpc'''), (MS, '''			To:      *r.TheirIdentityPublic,
			Payload: m,
		})
	if err != nil {
''', '''			To:      *r.TheirIdentityPublic,
			Payload: m,
		})
	if err == nil {
		z.Lock()
		z.tagCallback[tag] = &cb{
			callback: f,
			to:       *r.TheirIdentityPublic,
		}
		z.Unlock()
	}
	if err != nil {
'''))
B('find tag not popped', 'C33', (ZC, '''			Command: rpc.TaggedCmdIdentityFind,
			Tag:     tag,
''', '''			Command: rpc.TaggedCmdIdentityFind,
'''), (ZC, '''	tag, err := z.tagStack.Pop()
	if err != nil {
		return fmt.Errorf("could not obtain tag: %v", err)
	}

	z.schedulePRPC(true,
		rpc.Message{
			Command: rpc.TaggedCmdIdentityFind,
''', '''	z.schedulePRPC(true,
		rpc.Message{
			Command: rpc.TaggedCmdIdentityFind,
'''))
B('reset keeps tag when no ratchet', 'C33', (ZC, '''		return fmt.Errorf("ratchet file does not exists for %v", nick)
''', '''		returnTag = false
		return fmt.Errorf("ratchet file does not exists for %v", nick)
'''))
B('reset returns tag', 'C33', (ZC, '''	returnTag = false // we no longer need to return the tag

''', ''))
B('fetch retries with same tag', 'C33', (ZC, '''	z.schedulePRPC(true,
		rpc.Message{
			Command: rpc.TaggedCmdRendezvousPull,
			Tag:     tag,
		},
		rpc.RendezvousPull{
			Token: pin,
		})
''', '''	for i := 0; i < 2; i++ {
		z.schedulePRPC(true,
			rpc.Message{
				Command: rpc.TaggedCmdRendezvousPull,
				Tag:     tag,
			},
			rpc.RendezvousPull{
				Token: pin,
			})
	}
'''))
B('ping tag lost', 'C33', (ZC, '''				//z.PrintfT(0, "ping %v", tag)
				z.write.Lock()
''', '''				//z.PrintfT(0, "ping %v", tag)
				z.write.Lock()
				if z.pingInProgress {
					z.write.Unlock()
					continue
				}
'''))
B('pong tag kept', 'C33', (ZC, '''			// free tag
			err = z.tagStack.Push(message.Tag)
			if err != nil {
				exitError = fmt.Errorf("Pong invalid tag: %v",
					message.Tag)
				return
			}
''', ''))
B('rendezvous error keeps tag', 'C33', (ZC, '''				z.PrintfT(0, "key exchange failed: %v", r.Error)
			} else {
''', '''				z.PrintfT(0, "key exchange failed: %v", r.Error)
				continue
			} else {
'''))
B('ack twice', 'C33', (ZC, '''				go z.handleDisabledUser(c.to)
			}
''', '''				go z.handleDisabledUser(c.to)
				_ = z.tagStack.Push(message.Tag)
			}
'''))
B('callback not cleared', 'C33', (ZC, '''			z.tagCallback[message.Tag] = nil
			z.Unlock()

			// push tag
''', '''			z.Unlock()

			// push tag
'''))
B('callback cleared after push', 'C33', (ZC, '''			z.tagCallback[message.Tag] = nil
			z.Unlock()

			// push tag
			err = z.tagStack.Push(message.Tag)
			if err != nil {
				exitError = fmt.Errorf("Push "+
					"invalid tag: %v", message.Tag)
				return
			}
''', '''			z.Unlock()

			// push tag
			err = z.tagStack.Push(message.Tag)
			if err != nil {
				exitError = fmt.Errorf("Push "+
					"invalid tag: %v", message.Tag)
				return
			}
			z.Lock()
			z.tagCallback[message.Tag] = nil
			z.Unlock()
'''))
B('failed push not acked', 'C33', (ZC, '''				z.PrintfT(0, "deleting remote message")
			}
''', '''				z.PrintfT(0, "deleting remote message")
				continue
			}
'''))
B('push tag given back', 'C33', (ZC, '''			z.Dbg(idZKC, "handle CRPC %v tag %v from %v",
''', '''			_ = z.tagStack.Push(message.Tag)
			z.Dbg(idZKC, "handle CRPC %v tag %v from %v",
'''))
B('ack with wrong tag', 'C33', (ZC, '''					Command: rpc.TaggedCmdAcknowledge,
					Tag:     message.Tag,
''', '''					Command: rpc.TaggedCmdAcknowledge,
					Tag:     message.Tag & 0xf,
'''))
B('stack range', 'C33', (TG, '''		if x >= uint32(len(s.stack)) {
			return ErrInvalid
		}
''', ''))
B('stack duplicates', 'C33', (TG, '''			if v == x {
				return ErrInvalid
			}
''', '''			if v == x {
				s.at++
			}
'''))
Q('tag helper', (MS, '''	// message
	tag, err := z.tagStack.Pop()
	if err != nil {
		return fmt.Errorf("could not obtain tag: %v", err)
	}
''', '''	// message
	tag, err := z.obtainTag()
	if err != nil {
		return err
	}
'''), (ZC, '''	tag, err := z.tagStack.Pop()
	if err != nil {
		return fmt.Errorf("could not obtain tag: %v", err)
	}
	z.schedulePRPC(true,
		rpc.Message{
			Command: rpc.TaggedCmdRendezvousPull,
''', '''	tag, err := z.obtainTag()
	if err != nil {
		return err
	}
	z.schedulePRPC(true,
		rpc.Message{
			Command: rpc.TaggedCmdRendezvousPull,
'''), (ZC, '''// fetch tries''', '''func (z *ZKC) obtainTag() (uint32, error) {
	tag, err := z.tagStack.Pop()
	if err != nil {
		return 0, fmt.Errorf("could not obtain tag: %v", err)
	}
	return tag, nil
}

// fetch tries'''))
Q('give back helper', (ZC, '''			err = z.tagStack.Push(message.Tag)
			if err != nil {
				exitError = fmt.Errorf("RendezvousReply "+
					"invalid tag: %v", message.Tag)
				return
			}
''', '''			if exitError = z.giveBack(&message); exitError != nil {
				return
			}
'''), (ZC, '''			err = z.tagStack.Push(message.Tag)
			if err != nil {
				exitError = fmt.Errorf("ProxyReply "+
					"invalid tag: %v", message.Tag)
				return
			}
''', '''			if exitError = z.giveBack(&message); exitError != nil {
				return
			}
'''), (ZC, '''// fetch tries''', '''func (z *ZKC) giveBack(m *rpc.Message) error {
	if err := z.tagStack.Push(m.Tag); err != nil {
		return fmt.Errorf("%v invalid tag: %v", m.Command, m.Tag)
	}
	return nil
}

// fetch tries'''))
Q('take callback helper', (ZC, '''			z.Lock()
			if message.Tag >= uint32(len(z.tagCallback)) {
				exitError = fmt.Errorf("Acknowledge "+
					"invalid tag: %v", message.Tag)
				z.Unlock()
				return
			}
			c := z.tagCallback[message.Tag]
			z.tagCallback[message.Tag] = nil
			z.Unlock()
''', '''			c, ok := z.takeCallback(message.Tag)
			if !ok {
				exitError = fmt.Errorf("Acknowledge "+
					"invalid tag: %v", message.Tag)
				return
			}
'''), (ZC, '''// fetch tries''', '''func (z *ZKC) takeCallback(tag uint32) (*cb, bool) {
	z.Lock()
	defer z.Unlock()
	if tag >= uint32(len(z.tagCallback)) {
		return nil, false
	}
	c := z.tagCallback[tag]
	z.tagCallback[tag] = nil
	return c, true
}

// fetch tries'''))
Q('tag seen map', (TG, '''		for _, v := range s.stack[:s.at] {
			if v == x {
				return ErrInvalid
			}
		}
''', '''		if s.has(x) {
			return ErrInvalid
		}
'''), (TG, '// Pop returns the current', '''func (s *TagStack) has(x uint32) bool {
	for i := 0; i < s.at; i++ {
		if s.stack[i] == x {
			return true
		}
	}
	return false
}

// Pop returns the current'''))

# C34
B('dequeued before sent', 'C34', (MS, """					// actually do work
					//z.Dbg""", """					mtx.Lock()
					if hiPrio {
						hi = hi[1:]
					} else {
						lo = lo[1:]
					}
					mtx.Unlock()

					// actually do work
					//z.Dbg"""), (MS, """					// if we got here we can dequeue
					mtx.Lock()
					if hiPrio {
						hi = hi[1:]
					} else {
						lo = lo[1:]
					}
					mtx.Unlock()
""", ""))
B('failed message dropped', 'C34', (MS, """								"CRPC (rescheduled): %v"+
								RESET,
								err)
							break
""", """								"CRPC (rescheduled): %v"+
								RESET,
								err)
"""))
B('prpc failure ignored', 'C34', (MS, """						err = z.writePRPC(m)
						if err != nil {
""", """						err = z.writePRPC(m)
						if err != nil && z.isOnline() {
"""))
B('dequeue by length', 'C34', (MS, """					// if we got here we can dequeue
					mtx.Lock()
					if hiPrio {
""", """					// if we got here we can dequeue
					mtx.Lock()
					if hiPrio || len(hi) > 0 {
"""))
B('dequeue forgotten', 'C34', (MS, """						hi = hi[1:]
					} else {
						lo = lo[1:]
					}
""", """						hi = hi[1:]
					}
"""))
B('newest first', 'C34', (MS, "						m = hi[0]\n", "						m = hi[len(hi)-1]\n"), (MS, """						hi = hi[1:]
					} else {""", """						hi = hi[:len(hi)-1]
					} else {"""))
B('queued in front', 'C34', (MS, "		hi = append(hi, m)\n", "		hi = append([]wireMsg{m}, hi...)\n"))
B('queue dropped when offline', 'C34', (MS, """								"CRPC (rescheduled): %v"+
								RESET,
								err)
""", """								"CRPC (rescheduled): %v"+
								RESET,
								err)
							mtx.Lock()
							lo = lo[:0]
							mtx.Unlock()
"""))
B('low first', 'C34', (MS, """					if len(hi) == 0 {
						// check low prio work
						if len(lo) == 0 {
""", """					if len(lo) != 0 || len(hi) == 0 {
						// check low prio work
						if len(lo) == 0 {
"""))
Q('dequeue closure', (MS, """	// work queue
	go func() {""", """	dequeue := func(hiPrio bool) {
		mtx.Lock()
		defer mtx.Unlock()
		if hiPrio {
			hi = hi[1:]
			return
		}
		lo = lo[1:]
	}

	// work queue
	go func() {"""), (MS, """					mtx.Lock()
					if hiPrio {
						hi = hi[1:]
					} else {
						lo = lo[1:]
					}
					mtx.Unlock()
""", """					dequeue(hiPrio)
"""))
Q('queue next closure', (MS, """	// work queue
	go func() {""", """	next := func() (m wireMsg, hiPrio, ok bool) {
		mtx.Lock()
		defer mtx.Unlock()
		if len(hi) > 0 {
			return hi[0], true, true
		}
		if len(lo) > 0 {
			return lo[0], false, true
		}
		return
	}

	// work queue
	go func() {"""), (MS, """					mtx.Lock()
					if len(hi) == 0 {
						// check low prio work
						if len(lo) == 0 {
							mtx.Unlock()
							break
						}
						// low prio work
						hiPrio = false
						m = lo[0]
					} else {
						// high prio work
						hiPrio = true
						m = hi[0]
					}
					mtx.Unlock()
""", """					var ok bool
					m, hiPrio, ok = next()
					if !ok {
						break
					}
"""))
Q('queue send helper', (MS, """					if m.id != nil {
						err = z.cacheCRPC(*m.id,
							m.payload, m.callback)
						if err != nil {
							z.PrintfT(-1, REDBOLD+
								"CRPC (rescheduled): %v"+
								RESET,
								err)
							break
						}
					} else {
						if z.settings.Debug &&
							m.msg.Command != rpc.TaggedCmdPing {
							z.Dbg(idZKC, "write PRPC %v%v",
								spew.Sdump(m.msg),
								spew.Sdump(m.payload))
						}
						err = z.writePRPC(m)
						if err != nil {
							z.PrintfT(-1, REDBOLD+
								"PRPC (rescheduled): %v"+
								RESET,
								err)
							break
						}
					}
""", """					err = z.sendQueued(m)
					if err != nil {
						z.PrintfT(-1, REDBOLD+
							"rescheduled: %v"+
							RESET,
							err)
						break
					}
"""), (MS, "func (z *ZKC) schedulePRPC(", """func (z *ZKC) sendQueued(m wireMsg) error {
	if m.id != nil {
		return z.cacheCRPC(*m.id, m.payload, m.callback)
	}
	if z.settings.Debug &&
		m.msg.Command != rpc.TaggedCmdPing {
		z.Dbg(idZKC, "write PRPC %v%v",
			spew.Sdump(m.msg),
			spew.Sdump(m.payload))
	}
	return z.writePRPC(m)
}

func (z *ZKC) schedulePRPC("""))

# a request of an earlier session
B('stale request keeps its tag', 'C33', (MS, """	m.msg.Tag = tag
	err = z.writeMessage(&m.msg, m.payload)
""", """	err = z.writeMessage(&m.msg, m.payload)
"""))
B('stale request loses its tag', 'C33', (MS, """	if err != nil {
		err2 := z.tagStack.Push(tag)
		if err2 != nil {
			return fmt.Errorf("could not push tag, internal "+
				"state corrupt, please quit: %v %v", err, err2)
		}
	}

	return err
}
""", """	return err
}
"""))
Q('stale request switch', (MS, """	switch m.msg.Command {
	case rpc.TaggedCmdAcknowledge, rpc.TaggedCmdPing:
		return nil
	}

	tag, err""", """	if m.msg.Command == rpc.TaggedCmdAcknowledge ||
		m.msg.Command == rpc.TaggedCmdPing {
		return nil
	}

	tag, err"""))
# ---- C01 peers and crashes ----
B('ack tag unchecked', 'C01', (ZC, '''			if message.Tag >= uint32(len(z.tagCallback)) {
				exitError = fmt.Errorf("Acknowledge "+
					"invalid tag: %v", message.Tag)
				z.Unlock()
				return
			}
''', ''))
B('ack tag off by one', 'C01', (ZC, 'if message.Tag >= uint32(len(z.tagCallback)) {', 'if message.Tag > uint32(len(z.tagCallback)) {'))
B('server tag unchecked', 'C01', (ZS, '''		if message.Tag >= tagDepth {
			return fmt.Errorf("invalid tag received %v", message.Tag)
		}

''', ''))
B('server tag off by one', 'C01', (ZS, 'if message.Tag >= tagDepth {', 'if message.Tag > tagDepth {'))
B('server tag table smaller', 'C01', (ZS, 'tagMessage: make([]*RPCWrapper, tagDepth),', 'tagMessage: make([]*RPCWrapper, tagDepth-1),'))
B('short header accepted', 'C01', (RA, '	if len(ciphertext) < sealedHeaderSize {', '	if len(ciphertext) < 24 {'))
B('header size unchecked', 'C01', (RA, '''		if len(header) != headerSize {
			continue
		}
''', ''))
B('header size unchecked in decrypt', 'C01', (RA, '''		if len(header) != headerSize {
			return nil, errors.New("ratchet: incorrect header size")
		}
''', ''))
B('unpack length unchecked', 'C01', (BS, '''	if len(packed) < len(nonceR) {
		return nil, nil, fmt.Errorf("packed data too short")
	}
''', ''))
B('unpack salt nonce checks half', 'C01', (BS, 'if len(packed) < len(saltR)+len(nonceR) {', 'if len(packed) < len(saltR) {'))
B('unpack checks or', 'C01', (BS, 'if len(packed) < len(nonceR) {', 'if packed == nil {'))
B('idkx payload short', 'C01', (PU, '''	if len(p.Payload) < sntrup4591761.CiphertextSize {
		return fmt.Errorf("server sent a short payload")
	}
''', ''))
B('mention length unchecked', 'C01', (PU, '''		x+len(z.id.Public.Nick) <= len(gm.Message) &&
''', ''))
B('mention not found', 'C01', (PU, 'strings.ToUpper(z.id.Public.Nick)); x != -1 &&', 'strings.ToUpper(z.id.Public.Nick)); true &&'))
B('empty group list', 'C01', (ZC, 'if len(gl.Members) == 0 || !bytes.Equal(gl.Members[0][:], id[:]) {', 'if !bytes.Equal(gl.Members[0][:], id[:]) {'))
B('ecdh point length', 'C01', (RA, '''	if len(p) != 32 {
		return errors.New("ratchet: invalid ECDH point length")
	}
''', ''))
B('ecdh point shorter', 'C01', (RA, '	if len(p) != 32 {\n		return errors.New("ratchet: invalid ECDH point length")', '	if len(p) > 32 {\n		return errors.New("ratchet: invalid ECDH point length")'))
B('ack of an unused tag', 'C01', (ZS, '''			if m == nil {
				return fmt.Errorf("acknowledge for unused tag: "+
					"%v %v", message.Tag, rids)
			}
''', ''), (ZS, 'if m != nil && m.Message.Tag != message.Tag {', 'if m.Message.Tag != message.Tag {'))
B('ack without request', 'C01', (ZC, 'if c != nil && a.ErrorCode == rpc.ErrorCodeUserDisabled {', 'if a.ErrorCode == rpc.ErrorCodeUserDisabled {'))
B('ack callback of nothing', 'C01', (ZC, 'if c != nil && c.callback != nil {', 'if c.callback != nil {'))
B('ack without callback', 'C01', (ZC, 'if c != nil && c.callback != nil {', 'if c != nil {'))
B('unknown sender', 'C01', (PU, '''		id, err := z.ab.FindIdentity(p.From)
		if err != nil {
			return fmt.Errorf("received join from unknown identity: %v",
				hex.EncodeToString(p.From[:]))
		}
		z.PrintfT(0, "%v left group chat %v: %v",''', '''		id, _ := z.ab.FindIdentity(p.From)
		z.PrintfT(0, "%v left group chat %v: %v",'''))
B('exit on unknown command', 'C01', (ZC, '				z.PrintfT(0, "Server did not return nick")', '				z.PrintfT(0, "Server did not return nick")\n				os.Exit(1)'))
B('kick indexes members', 'C01', (PU, '''		// echo on conversation window
		for k, v := range z.conversation {
			if v.id.Nick == gk.NewGroupList.Name {''', '''		z.Dbg(idZKC, "new admin: %x", gk.NewGroupList.Members[0])
		// echo on conversation window
		for k, v := range z.conversation {
			if v.id.Nick == gk.NewGroupList.Name {'''))
B('file chunk preview', 'C01', (PU, '	if p.Payload == nil {\n		return fmt.Errorf("server sent a message without a payload")\n	}\n	if len(p.Payload) < sntrup4591761.CiphertextSize {', '	z.Dbg(idZKC, "%x", p.Payload[:4])\n	if p.Payload == nil {\n		return fmt.Errorf("server sent a message without a payload")\n	}\n	if len(p.Payload) < sntrup4591761.CiphertextSize {'))
Q('C01 tag helper', (ZS, '''		if message.Tag >= tagDepth {
			return fmt.Errorf("invalid tag received %v", message.Tag)
		}
''', '''		if !validTag(message.Tag) {
			return fmt.Errorf("invalid tag received %v", message.Tag)
		}
'''), (ZS, 'func (z *ZKS) handleSession(', '''func validTag(tag uint32) bool {
	return tag < tagDepth
}

func (z *ZKS) handleSession('''))
Q('C01 tag by table length', (ZS, 'if message.Tag >= tagDepth {', 'if int(message.Tag) >= len(tagBitmap) {'))
Q('C01 ack merged', (ZS, '''			if m == nil {
				return fmt.Errorf("acknowledge for unused tag: "+
					"%v %v", message.Tag, rids)
			}

			// sanity
			if m != nil && m.Message.Tag != message.Tag {
				return fmt.Errorf("acknowledge tag doesn't "+
					"match: %v %v %v",
					m.Message.Tag,
					message.Tag,
					rids)
			}''', '''			if m == nil || m.Message.Tag != message.Tag {
				return fmt.Errorf("acknowledge for unused tag: "+
					"%v %v", message.Tag, rids)
			}'''))
Q('C01 ack lookup helper', (ZC, '''			z.Lock()
			if message.Tag >= uint32(len(z.tagCallback)) {
				exitError = fmt.Errorf("Acknowledge "+
					"invalid tag: %v", message.Tag)
				z.Unlock()
				return
			}
			c := z.tagCallback[message.Tag]
			z.tagCallback[message.Tag] = nil
			z.Unlock()
''', '''			c, ok := z.takeCallback(message.Tag)
			if !ok {
				exitError = fmt.Errorf("Acknowledge "+
					"invalid tag: %v", message.Tag)
				return
			}
'''), (ZC, 'func (z *ZKC) handleRPC(', '''func (z *ZKC) takeCallback(tag uint32) (*cb, bool) {
	z.Lock()
	defer z.Unlock()
	if tag >= uint32(len(z.tagCallback)) {
		return nil, false
	}
	c := z.tagCallback[tag]
	z.tagCallback[tag] = nil
	return c, true
}

func (z *ZKC) handleRPC('''))
Q('C01 header length in a variable', (RA, '	if len(ciphertext) < sealedHeaderSize {', '	if n := len(ciphertext); !(n >= sealedHeaderSize) {'))
Q('C01 header split helper', (RA, '''	sealedHeader := ciphertext[:sealedHeaderSize]
	sealedMessage := ciphertext[sealedHeaderSize:]
	var nonce [24]byte
	copy(nonce[:], sealedHeader)
	sealedHeader = sealedHeader[len(nonce):]
''', '''	sealedHeader, sealedMessage := split(ciphertext)
	var nonce [24]byte
	copy(nonce[:], sealedHeader)
	sealedHeader = sealedHeader[len(nonce):]
'''), (RA, 'func (r *Ratchet) Decrypt(', '''func split(b []byte) ([]byte, []byte) {
	return b[:sealedHeaderSize], b[sealedHeaderSize:]
}

func (r *Ratchet) Decrypt('''))
Q('C01 header check helper', (RA, '''		if len(header) != headerSize {
			return nil, errors.New("ratchet: incorrect header size")
		}
''', '''		if err := checkHeader(header); err != nil {
			return nil, err
		}
'''), (RA, 'func (r *Ratchet) Decrypt(', '''func checkHeader(h []byte) error {
	if len(h) != headerSize {
		return errors.New("ratchet: incorrect header size")
	}
	return nil
}

func (r *Ratchet) Decrypt('''))
Q('C01 header parsed by helper', (RA, '''	messageNum := binary.LittleEndian.Uint32(header[:4])
	prevMessageCount := binary.LittleEndian.Uint32(header[4:8])
''', '''	messageNum, prevMessageCount := counters(header)
'''), (RA, 'func (r *Ratchet) Decrypt(', '''func counters(h []byte) (uint32, uint32) {
	return binary.LittleEndian.Uint32(h), binary.LittleEndian.Uint32(h[4:])
}

func (r *Ratchet) Decrypt('''))
Q('C01 unpack step by step', (BS, '''	copy(saltR[:], packed[0:32])
	copy(nonceR[:], packed[32:32+24])
	salt = &saltR
	nonce = &nonceR

	data = packed[32+24:]
''', '''	rest := packed[copy(saltR[:], packed):]
	copy(nonceR[:], rest)
	salt = &saltR
	nonce = &nonceR

	data = rest[len(nonceR):]
'''))
Q('C01 unpack rest', (BS, '''	copy(saltR[:], packed[0:32])
	copy(nonceR[:], packed[32:32+24])
	salt = &saltR
	nonce = &nonceR

	data = packed[32+24:]
''', '''	copy(saltR[:], packed)
	rest := packed[32:]
	copy(nonceR[:], rest)
	salt = &saltR
	nonce = &nonceR

	data = rest[24:]
'''))
Q('C01 mention flag', (PU, '''		x+len(z.id.Public.Nick) <= len(gm.Message) &&
''', '''		len(gm.Message)-x >= len(z.id.Public.Nick) &&
'''))
Q('C01 group admin helper', (ZC, '''	if len(gl.Members) == 0 || !bytes.Equal(gl.Members[0][:], id[:]) {''', '''	if !isAdmin(gl.Members, id) {'''), (ZC, 'func (z *ZKC) _updateGroupList(', '''func isAdmin(m [][zkidentity.IdentitySize]byte, id [zkidentity.IdentitySize]byte) bool {
	return len(m) > 0 && bytes.Equal(m[0][:], id[:])
}

func (z *ZKC) _updateGroupList('''))
Q('C01 invite by value', (PU, '''	for i := range gi.Members {
		id, err := z.ab.FindNick(gi.Members[i])''', '''	for i := 0; i < len(gi.Members); i++ {
		id, err := z.ab.FindNick(gi.Members[i])'''))
Q('C01 point length first', (RA, '''	if len(p) != 32 {
		return errors.New("ratchet: invalid ECDH point length")
	}
	pn := new(big.Int).SetBytes(inv32(p))''', '''	var pn *big.Int
	switch len(p) {
	case 32:
		pn = new(big.Int).SetBytes(inv32(p))
	default:
		return errors.New("ratchet: invalid ECDH point length")
	}'''))
Q('C01 inv32 by swap', (RA, '''	for i := 0; i < 32; i++ {
		ret[i] = x[31-i]
	}
	return ret''', '''	copy(ret, x)
	for i, j := 0, len(ret)-1; i < j; i, j = i+1, j-1 {
		ret[i], ret[j] = ret[j], ret[i]
	}
	return ret'''))
Q('C01 motd lines by index', (ZC, '''		for _, v := range motd {
			z.PrintfT(0, "%v", v)
		}
		break''', '''		for i := 0; i < len(motd); i++ {
			z.PrintfT(0, "%v", motd[i])
		}
		break'''))
B('tag depth may be negative', 'C01', (ZC, 'if td < 1 || td > tagDepth {', 'if td > tagDepth {'))
B('no decompressor', 'C01', (PU, '''		rd, err = zlib.NewReader(br)
		if err != nil {
			return fmt.Errorf("could not decompress: %v", err)
		}
''', '''		rd, _ = zlib.NewReader(br)
'''))
B('text of no error', 'C01', (ZS.replace('zkserver.go','account.go'), '''		udr.Error = "invalid identity size"''', '''		udr.Error = err.Error()'''))
Q('C01 decompress helper', (PU, '''		rd, err = zlib.NewReader(br)
		if err != nil {
			return fmt.Errorf("could not decompress: %v", err)
		}
''', '''		rd, err = inflate(br)
		if err != nil {
			return err
		}
'''), (PU, 'func (z *ZKC) handlePush(', '''func inflate(r io.Reader) (io.Reader, error) {
	z, err := zlib.NewReader(r)
	if err != nil {
		return nil, fmt.Errorf("could not decompress: %v", err)
	}
	return z, nil
}

func (z *ZKC) handlePush('''))

# -- C31: what a hash covers
ZID = 'zkidentity/zkidentity.go'
V31 = '''	d := sha256.New()
	d.Write([]byte(p.Name))
	d.Write([]byte(p.Nick))
	d.Write(p.SigKey[:])
	d.Write(p.Key[:])
	d.Write(p.Identity[:])
	if !bytes.Equal'''
S31 = '	d.Write([]byte(fi.Public.Nick))\n'
B('nick hashed lower case', 'C31', (ZID, V31, V31.replace('[]byte(p.Nick)', 'bytes.ToLower([]byte(p.Nick))')), (ZID, S31, '	d.Write(bytes.ToLower([]byte(fi.Public.Nick)))\n'))
B('only part of the key hashed', 'C31', (ZID, V31, V31.replace('p.SigKey[:]', 'p.SigKey[:16]')), (ZID, '	d.Write(fi.Public.SigKey[:])\n', '	d.Write(fi.Public.SigKey[:16])\n'))
B('compares half a digest', 'C31', (ZID, 'if !bytes.Equal(p.Digest[:], d.Sum(nil)) {', 'if !bytes.Equal(p.Digest[:16], d.Sum(nil)[:16]) {'))
Q('hash full slices', (ZID, V31, V31.replace('p.SigKey[:]', 'p.SigKey[0:len(p.SigKey)]').replace('p.Identity[:]', 'p.Identity[0:32]').replace('[]byte(p.Nick)', 'bytes.Clone([]byte(p.Nick))')))
Q('hash appended buffer', (ZID, V31, '''	buf := make([]byte, 0, 256)
	buf = append(buf, p.Name...)
	d := sha256.New()
	d.Write(buf)
	d.Write([]byte(p.Nick))
	d.Write(p.SigKey[:])
	d.Write(p.Key[:])
	d.Write(p.Identity[:])
	if !bytes.Equal'''))

# -- C41: what was handed over is not changed afterwards
G41 = '''	for i := 0; i < len(gc.Members); i++ {
		if bytes.Equal(gc.Members[i][:], z.id.Public.Identity[:]) {
			continue
		}

		//z.Dbg(idSnd, "schedule CRPC")
		z.scheduleCRPC(true, &gc.Members[i], rpc.GroupMessage{'''
SND41 = 'zkclient/send.go'; GC41 = 'zkclient/groupchat.go'
B('loop variable scheduled', 'C41', (GC41, G41, '''	for _, m := range gc.Members {
		if bytes.Equal(m[:], z.id.Public.Identity[:]) {
			continue
		}

		z.scheduleCRPC(true, &m, rpc.GroupMessage{'''))
Q('loop variable copied', (GC41, G41, '''	for _, m := range gc.Members {
		m := m
		if bytes.Equal(m[:], z.id.Public.Identity[:]) {
			continue
		}

		z.scheduleCRPC(true, &m, rpc.GroupMessage{'''))
B('chunk buffer reused', 'C41', (SND41, '''	for offset := 0; ; {
		chunk := make([]byte, z.chunkSize)
''', '''	buf := make([]byte, z.chunkSize)
	for offset := 0; ; {
		chunk := buf
'''))
Q('chunk buffer copied', (SND41, '''	for offset := 0; ; {
		chunk := make([]byte, z.chunkSize)
''', '''	buf := make([]byte, z.chunkSize)
	for offset := 0; ; {
		chunk := buf
'''), (SND41, '''		chunk = chunk[:count]
''', '''		chunk = append([]byte(nil), chunk[:count]...)
'''))
B('chunk hoisted', 'C41', (SND41, '''	for offset := 0; ; {
		chunk := make([]byte, z.chunkSize)
''', '''	var c struct{ b []byte }
	c.b = make([]byte, z.chunkSize)
	for offset := 0; ; {
		chunk := c.b[:z.chunkSize]
'''))
B('saved key not copied', 'C41', (RA, '				Key:          dup32(&savedKey.key),\n', '				Key:          savedKey.key[:],\n'))
B('connection shared', 'C41', (ZS, '''		for {
			conn, err := z.socket.Accept()
			if err != nil {
				z.Dbg(idSock, "accept: %v", err)
				return
			}
			go z.socketHandler(conn)
''', '''		var conn net.Conn
		for {
			var err error
			conn, err = z.socket.Accept()
			if err != nil {
				z.Dbg(idSock, "accept: %v", err)
				return
			}
			go func() { z.socketHandler(conn) }()
'''))
Q('connection in closure', (ZS, '''			go z.socketHandler(conn)
''', '''			go func() { z.socketHandler(conn) }()
'''))
B('members cut in place', 'C41', ('zkclient/push.go', 'append(gc.Members[:i:i], gc.Members[i+1:]...)', 'append(gc.Members[:i], gc.Members[i+1:]...)'))
Q('members cut in a helper', ('zkclient/push.go', 'append(gc.Members[:i:i], gc.Members[i+1:]...)', 'membersWithout(gc.Members, i)'), ('zkclient/push.go', '''func (z *ZKC) handleGroupPart(''', '''func membersWithout(m [][zkidentity.IdentitySize]byte, i int) [][zkidentity.IdentitySize]byte {
	r := make([][zkidentity.IdentitySize]byte, 0, len(m)-1)
	for k := range m {
		if k != i {
			r = append(r, m[k])
		}
	}
	return r
}

func (z *ZKC) handleGroupPart('''))
B('members cut in place by a helper', 'C41', ('zkclient/push.go', 'append(gc.Members[:i:i], gc.Members[i+1:]...)', 'membersWithout(gc.Members, i)'), ('zkclient/push.go', '''func (z *ZKC) handleGroupPart(''', '''func membersWithout(m [][zkidentity.IdentitySize]byte, i int) [][zkidentity.IdentitySize]byte {
	copy(m[i:], m[i+1:])
	return m[:len(m)-1]
}

func (z *ZKC) handleGroupPart('''))
B('identity zeroed after it was scheduled', 'C41', (GC41, '''	z.scheduleCRPC(true, &id.Identity, *gi)
''', '''	z.scheduleCRPC(true, &id.Identity, *gi)
	for k := range id.Identity {
		id.Identity[k] = 0
	}
'''))
B('disabled looked at too late', 'C06', (ACC, '''	if a.Disabled(pid.Identity) {
		return fmt.Errorf("account disabled: %v",
			a.accountDirDisabled(pid.Identity))
	}
	// make sure account''', '''	// make sure account'''), (ACC, '''	// save public identity
	var b bytes.Buffer''', '''	if a.Disabled(pid.Identity) {
		return fmt.Errorf("account disabled: %v",
			a.accountDirDisabled(pid.Identity))
	}

	// save public identity
	var b bytes.Buffer'''))
B('cache made first', 'C06', (ACC, '''	_, err := a.Find(pid.Nick)
	if err == nil {
		return fmt.Errorf("nickname already in use")''', '''	os.MkdirAll(a.accountFile(pid.Identity, CacheDir), 0700)
	_, err := a.Find(pid.Nick)
	if err == nil {
		return fmt.Errorf("nickname already in use")'''))
Q('create checks reordered', (ACC, '''	if a.Disabled(pid.Identity) {
		return fmt.Errorf("account disabled: %v",
			a.accountDirDisabled(pid.Identity))
	}
	// make sure account doesn't exist
	accountName := a.accountDir(pid.Identity)
''', '''	// make sure account doesn't exist
	accountName := a.accountDir(pid.Identity)
'''), (ACC, '''	// open user db
	user, err := inidb.New(a.accountFile(pid.Identity,
		UserIdentityFilename), true, 10)''', '''	if disabled := a.Disabled(pid.Identity); disabled {
		return fmt.Errorf("account disabled: %v",
			a.accountDirDisabled(pid.Identity))
	}

	// open user db
	user, err := inidb.New(a.accountFile(pid.Identity,
		UserIdentityFilename), true, 10)'''))

# -- the server: C02-C08, C27
CA_ = 'zkserver/cache.go'; ZA_ = 'zkserver/account.go'; PN_ = 'zkserver/pending.go'
EN_ = '''	// The account may have been disabled prior to the session being listed,
	// in that case it was not knocked offline.
	if !z.account.Enabled(rid) {
		return fmt.Errorf("handleSession: account not enabled %v", rids)
	}

'''
ON_ = '''	// mark session online
	z.Lock()
	z.sessions[rids] = &sc
	z.Unlock()

'''
B('enabled looked at before listing', 'C02', (ZS, EN_, ''), (ZS, '	// register identity\n	err := z.account.Online', EN_ + '	// register identity\n	err := z.account.Online'))
B('enabled looked at before listing 2', 'C02', (ZS, EN_, ''), (ZS, ON_, EN_.replace('{\n		return', '{\n		z.account.Offline(rid)\n		return') + ON_))
B('enabled only in directory mode', 'C02', (ZS, 'if !z.account.Enabled(rid) {', 'if z.settings.Directory && !z.account.Enabled(rid) {'))
B('knocked offline before disabled', 'C02', (ZS, '''			// write reply
			reply = z.handleIdentityDisable(jud)

''', ''), (ZS, '''				sc.kx.Close()
			}
			z.Unlock()

		case socketapi.SCUserEnable:''', '''				sc.kx.Close()
			}
			z.Unlock()
			reply = z.handleIdentityDisable(jud)

		case socketapi.SCUserEnable:'''))
B('unwelcome falls through', 'C02', (ZS, '''				if err != nil {
					z.Error(idApp, "unwelcome failed: %v %v",
						conn.RemoteAddr(), err)
				}
				return
			}

			if !z.account.Enabled(remoteID) {
				z.Warn(idApp, "unknown identity: %v %x",
					conn.RemoteAddr(), remoteID)
				return
			}
''', '''				if err != nil {
					z.Error(idApp, "unwelcome failed: %v %v",
						conn.RemoteAddr(), err)
					return
				}
			} else if !z.account.Enabled(remoteID) {
				z.Warn(idApp, "unknown identity: %v %x",
					conn.RemoteAddr(), remoteID)
				return
			}
'''))
B('respond error survived', 'C02', (ZS, '''			if err != nil {
				conn.Close()
				z.Error(idApp, "kx.Respond: %v %v",''', '''			if err != nil && !errors.Is(err, session.ErrMarshal) {
				conn.Close()
				z.Error(idApp, "kx.Respond: %v %v",'''))
B('session of an earlier peer', 'C02', (ZS, '''	// pre session state
	var mode string
''', '''	// pre session state
	var mode string
	var remoteID [32]byte
'''), (ZS, '''			remoteID, ok := kx.TheirIdentity().([32]byte)
			if !ok {
				z.Error(idApp, "invalid KX identity type %T: %v",
					remoteID, conn.RemoteAddr())
				return
			}
''', '''			if id, ok := kx.TheirIdentity().([32]byte); ok && z.settings.Debug {
				remoteID = id
			}
'''))
B('acknowledge deletes for another', 'C05', (ZS, '''				from := kx.TheirIdentity().([32]byte)
				// err is reporting only
				err = z.account.Delete(from, m.Identifier)''', '''				// err is reporting only
				err = z.account.Delete(m.Payload.(rpc.Push).From, m.Identifier)'''))
B('deleted when written', 'C05', (ZS, '''				return
			}
		}
	}
}

func (z *ZKS) sessionNtfn''', '''				return
			}
			if msg.Message.Command == rpc.TaggedCmdPush && msg.Message.Cleartext {
				from := sc.kx.TheirIdentity().([32]byte)
				z.account.Delete(from, msg.Identifier)
			}
		}
	}
}

func (z *ZKS) sessionNtfn'''))
B('unreadable message removed', 'C05', (ACC, '''						f.Close()
						dn.send(&Notification{
							Error: fmt.Errorf("%v: unmarshal %v",
								filename, err),
						})
						continue''', '''						f.Close()
						os.Remove(filename)
						continue'''))
B('delete whatever tag', 'C05', (ZS, '''			m := sc.tagMessage[message.Tag]
			sc.Unlock()
''', '''			m := sc.tagMessage[message.Tag]
			for k := 0; m == nil && k < len(sc.tagMessage); k++ {
				m = sc.tagMessage[k]
			}
			sc.Unlock()
'''))
B('forgotten before removed', 'C05', (ACC, '''	cache := a.accountFile(from, CacheDir)
	err := os.Remove(path.Join(cache, identifier))
	if err != nil {
		return err
	}
''', '''	cache := a.accountFile(from, CacheDir)
	err := os.RemoveAll(cache)
	if err != nil {
		return err
	}
'''))
B('dm of an earlier message', 'C03', (ACC, '''			for _, v := range fi {
				a.Lock()
				_, found''', '''			var dm diskMessage
			for _, v := range fi {
				a.Lock()
				_, found'''), (ACC, '''				var dm diskMessage
				_, err = xdr.Unmarshal(f, &dm)''', '''				_, err = xdr.Unmarshal(f, &dm)'''))
B('sender from the payload', 'C03', (CA_, '''	filename, err := z.account.Deliver(cache.To, from, cache.Payload, false)''', '''	if len(cache.Payload) > 4096 {
		copy(from[:], cache.Payload)
	}
	filename, err := z.account.Deliver(cache.To, from, cache.Payload, false)'''))
B('proxy sender is the recipient', 'C03', (CA_, 'z.account.Deliver(proxy.To, from, proxy.Payload, true)', 'z.account.Deliver(from, proxy.To, proxy.Payload, true)'))
B('proxy delivered as encrypted', 'C03', (CA_, 'z.account.Deliver(proxy.To, from, proxy.Payload, true)', 'z.account.Deliver(proxy.To, from, proxy.Payload, !z.settings.Debug)'))
B('push from the own id', 'C03', (ZS, '					From:     n.From,\n', '					From:     n.To,\n'))
B('short write accepted', 'C04', (ACC, '''	if cerr := f.Close(); err == nil {
		err = cerr
	}
''', '''	f.Close()
'''))
B('sync after rename', 'C04', (ACC, '''	if err == nil {
		err = f.Sync()
	}
''', ''))
B('ack unless disabled', 'C04', (CA_, '''		// ack with error
		writer <- &RPCWrapper{''', '''		// ack with error
		if replyErrorCode == rpc.ErrorCodeInvalid && z.settings.Debug {
			replyError = ""
		}
		writer <- &RPCWrapper{'''))
B('written in place', 'C04', (ACC, 'ioutil.TempFile(a.accountFile(to, ""), "deliver")', 'os.OpenFile(fullPath, os.O_CREATE|os.O_WRONLY|os.O_EXCL, 0600)'), (ACC, 'err = os.Rename(f.Name(), fullPath)', 'err = os.Chmod(fullPath, 0600)'))
B('proxy error dropped', 'C04', (CA_, '''		payload.Error = fmt.Sprintf("proxy delivery failed to: %x",
			proxy.To)
''', '''		if z.account.Disabled(proxy.To) {
			payload.Error = fmt.Sprintf("proxy delivery failed to: %x",
				proxy.To)
		}
'''))
B('policy misspelt', 'C06', (ZA_, '''	default:
		fallthrough
	case "no":''', '''	default:
	case "no":'''))
B('token refused but created', 'C06', (ZA_, '''			z.accountReplyFailure("invalid account create token",
				conn, ca)
			return fmt.Errorf("invalid account create token")''', '''			z.accountReplyFailure("invalid account create token",
				conn, ca)
			if ca.Token != "" {
				return fmt.Errorf("invalid account create token")
			}'''))
B('force for known token', 'C06', (ZA_, 'z.account.Create(ca.PublicIdentity, false)', 'z.account.Create(ca.PublicIdentity, ca.Token != "")'))
B('verify skipped with a token', 'C06', (ZA_, 'if !ca.PublicIdentity.Verify() {', 'if ca.Token == "" && !ca.PublicIdentity.Verify() {'))
B('create error hidden', 'C06', (ZA_, '''	if err != nil {
		car.Error = rpc.ErrInternalError.Error()
	}
''', '''	if err != nil && z.settings.CreatePolicy != "yes" {
		car.Error = rpc.ErrInternalError.Error()
	}
'''))
B('token kept until created', 'C07', (PN_, '''	err = pending.Save()
	if err != nil {
		z.Error(idApp, "could not save pending db: %v", err)
		return false
	}

''', ''))
B('token saved later', 'C07', (PN_, '''		z.Error(idApp, "could not save pending db: %v", err)
		return false
	}

	// check''', '''		z.Error(idApp, "could not save pending db: %v", err)
	}

	// check'''))
B('token lock late', 'C07', (PN_, '''	// a token may only be used once
	z.pendingMtx.Lock()
	defer z.pendingMtx.Unlock()

''', ''), (PN_, '''	// delete token
''', '''	// a token may only be used once
	z.pendingMtx.Lock()
	defer z.pendingMtx.Unlock()

	// delete token
'''))
B('expiry the other way', 'C07', (PN_, '''	if ts.Before(time.Now()) {
		z.Dbg(idApp, "%v token expired %v", conn.RemoteAddr(), token)
		return false
	}
''', '''	if ts.Before(time.Now().Add(-24*time.Hour)) {
		z.Dbg(idApp, "%v token expired %v", conn.RemoteAddr(), token)
		return false
	}
'''))
B('zero expiry is for ever', 'C07', (PN_, '	if ts.Before(time.Now()) {\n		z.Dbg', '	if t != 0 && ts.Before(time.Now()) {\n		z.Dbg'))
B('token deletion only found', 'C07', (PN_, '''		z.Error(idApp, "could not delete token %v", conn.RemoteAddr(),
			token)
		return false
''', '''		z.Error(idApp, "could not delete token %v", conn.RemoteAddr(),
			token)
'''))
B('pin handed out before saved', 'C08', (RZ, '''		err = rz.Save()
		if err != nil {
			z.Error(idApp, "could not save rendezvous db: %v", err)
			goto bad
		}
''', '''		payload.Error = ""
		payload.Token = tokenS
		err = rz.Save()
		if err != nil {
			z.Error(idApp, "could not save rendezvous db: %v", err)
			goto bad
		}
'''))
B('pin of another size', 'C08', (RZ, '''		_, err = rz.Get("", tokenS)
		if err == nil {''', '''		_, err = rz.Get("", token2(tokenS))
		if err == nil {'''), (RZ, 'func (z *ZKS) handleRendezvousPull(', '''func token2(s string) string { return "0" + s }

func (z *ZKS) handleRendezvousPull('''))
B('duplicate once allowed', 'C08', (RZ, '''			// duplicate
			retry--
			continue
		}

		// value''', '''			// duplicate
			retry--
			if retry > 0 {
				continue
			}
		}

		// value'''))
B('rendezvous unlocked early', 'C08', (RZ, '''	// sanitize inputs
	if len(r.Blob) > 4096 {''', '''	z.rendezvousMtx.Unlock()
	defer z.rendezvousMtx.Lock()

	// sanitize inputs
	if len(r.Blob) > 4096 {'''))
B('pull trimmed token', 'C08', (RZ, 'v, err := rz.Get("", r.Token)', 'v, err := rz.Get("", strings.TrimLeft(r.Token, "0"))'), (RZ, '	"strconv"\n', '	"strconv"\n	"strings"\n'))
B('blob of a bad record', 'C08', (RZ, '''		payload.Error = "internal error unmarshal"
		goto bad
''', '''		payload.Error = "internal error unmarshal"
'''))
B('pong for others tag', 'C27', (ZS, '''					Command: rpc.TaggedCmdPong,
					Tag:     message.Tag,
''', '''					Command: rpc.TaggedCmdPong,
					Tag:     message.Tag % (tagDepth - 1),
'''))
B('cache answered twice', 'C27', (CA_, '''		z.Dbg(idApp, "delivery failed: %v", err)
		return nil
	}
''', '''		z.Dbg(idApp, "delivery failed: %v", err)
		if replyErrorCode == rpc.ErrorCodeUserDisabled {
			return nil
		}
	}
'''))
B('find unanswered', 'C27', (ZA_, '''		payload.Error = fmt.Sprintf("nick not found: %v", nick)
	} else {''', '''		payload.Error = fmt.Sprintf("nick not found: %v", nick)
		if nick == "" {
			return nil
		}
	} else {'''))
B('rendezvous reply dropped when busy', 'C27', (RZ, '''bad:
	z.rendezvousMtx.Unlock()
	reply.Payload = payload
	writer <- &reply
	return nil''', '''bad:
	z.rendezvousMtx.Unlock()
	reply.Payload = payload
	select {
	case writer <- &reply:
	default:
	}
	return nil'''))
B('proxy reply without a tag', 'C27', (CA_, '''	reply := RPCWrapper{
		Message: rpc.Message{
			Command: rpc.TaggedCmdProxyReply,
			Tag:     msg.Tag,
		},
	}
	payload''', '''	reply := RPCWrapper{
		Message: rpc.Message{
			Command: rpc.TaggedCmdProxyReply,
		},
	}
	if proxy.Payload != nil {
		reply.Message.Tag = msg.Tag
	}
	payload'''))
B('tag freed on reply only', 'C27', (ZS, '''		tagBitmap[message.Tag] = false
	}
}

func (z *ZKS) preSession''', '''		if message.Command != rpc.TaggedCmdProxy {
			tagBitmap[message.Tag] = false
		}
	}
}

func (z *ZKS) preSession'''))
B('rendezvous reply command', 'C27', (RZ, 'Command: rpc.TaggedCmdRendezvousPullReply,', 'Command: rpc.TaggedCmdRendezvousReply,'))
B('first proof is read only', 'C15', (KX, '''	sp, err := recvProof(kx, k1, k2, ephemeralPublic[:], theirEphemeralPub[:])
	if err != nil {
		return err
	}
''', '''	sp, err := recvProof(kx, k1, k2, ephemeralPublic[:], theirEphemeralPub[:])
	if err == ErrDecrypt {
		return err
	}
'''))
B('half a proof', 'C15', (KX, 'if !hmac.Equal(d, rd) {', 'if !hmac.Equal(d[:16], rd[:16]) {'))
B('as much proof as sent', 'C15', (KX, '''	if len(rd) != sha256.Size {
		return nil, ErrUnmarshal
	}
	D(0, "[session.recvProof] expected''', '''	if len(rd) > sha256.Size {
		return nil, ErrUnmarshal
	}
	D(0, "[session.recvProof] expected'''), (KX, 'if !hmac.Equal(d, rd) {', 'if !hmac.Equal(d[:len(rd)], rd) {'))
B('proof compared bytewise', 'C15', (KX, 'if !hmac.Equal(d, rd) {', 'if string(d) != string(rd) {'))
B('k3 twice in the keys', 'C15', (KX, 'kx.readKey, kx.writeKey = deriveKeys(k1, k2, k3, k4)', 'kx.readKey, kx.writeKey = deriveKeys(k1, k2, k3, k3)'), (KX, 'kx.writeKey, kx.readKey = deriveKeys(k1, k2, k3, k4)', 'kx.writeKey, kx.readKey = deriveKeys(k1, k2, k3, k3)'))
B('client identity not proved', 'C15', (KX, 'cp, err := sendProof(kx, k2, k3, sp, kx.OurPublicKey[:])', 'cp, err := sendProof(kx, k2, k3, sp)'), (KX, 'cp, err := recvProof(kx, k2, k3, sp, kx.TheirPublicKey[:])', 'cp, err := recvProof(kx, k2, k3, sp)'))
B('server ephemeral not proved', 'C15', (KX, 'sp, err := recvProof(kx, k1, k2, ephemeralPublic[:], theirEphemeralPub[:])', 'sp, err := recvProof(kx, k1, k2, ephemeralPublic[:], ephemeralPublic[:])'), (KX, 'sp, err := sendProof(kx, k1, k2, theirEphemeralPub[:], epk[:])', 'sp, err := sendProof(kx, k1, k2, theirEphemeralPub[:], theirEphemeralPub[:])'))
B('ephemeral erased on success only', 'C15', (KX, '''	defer zeroEphemeral()

''', ''), (KX, '''	kx.readKey, kx.writeKey = deriveKeys(k1, k2, k3, k4)
''', '''	kx.readKey, kx.writeKey = deriveKeys(k1, k2, k3, k4)
	zeroEphemeral()
'''))
B('only the first half erased', 'C15', (KX, '''	for i := range ephemeralPrivate {
		ephemeralPrivate''', '''	for i := range ephemeralPrivate[:32] {
		ephemeralPrivate'''))
B('bad k3 goes on', 'C15', (KX, '''	k3, ok := recvCipherAndGetKey(kx, esk, k2)
	if ok != 1 {''', '''	k3, ok := recvCipherAndGetKey(kx, esk, k2)
	if ok != 1 && k3 == nil {'''))
B('short cipher is padded', 'C15', (KX, '''		if len(x) != len(c) {
			return nil, 0
		}
		copy(c[:], x)''', '''		if len(x) != len(c) {
			return new([32]byte), 1
		}
		copy(c[:], x)'''))
B('server uses the shared ephemeral', 'C15', (KX, 'k3, ok := recvCipherAndGetKey(kx, esk, k2)', 'k3, ok := recvCipherAndGetKey(kx, &ephemeralPrivate, k2)'))
B('last proof is optional', 'C15', (KX, '''	_, err = recvProof(kx, k3, k4, cp, kx.TheirPublicKey[:])
	if err != nil {
		return err
	}

	kx.readKey, kx.writeKey = deriveKeys(k1, k2, k3, k4)
''', '''	kx.readKey, kx.writeKey = deriveKeys(k1, k2, k3, k4)
	_, err = recvProof(kx, k3, k4, cp, kx.TheirPublicKey[:])
	if err != nil && err != ErrUnmarshal {
		return err
	}
'''))
B('server proof without its key', 'C15', (KX, '_, err = recvProof(kx, k3, k4, cp, kx.TheirPublicKey[:])', '_, err = recvProof(kx, k3, k4, cp)'), (KX, '_, err = sendProof(kx, k3, k4, cp, kx.OurPublicKey[:])', '_, err = sendProof(kx, k3, k4, cp)'))
B('one key for both ways', 'C15', (KX, '	copy(b[:], k[32:64])', '	copy(b[:], k[:32])'))
B('keys from the short part', 'C15', (KX, '''	for _, p := range parts {
		d.Write(p[:])
	}
	k := d.Sum(nil)
	a :=''', '''	for _, p := range parts[1:] {
		d.Write(p[:])
	}
	k := d.Sum(nil)
	a :='''))
B('proof over the first part', 'C15', (KX, '''	for _, p := range parts {
		h.Write(p)
	}
	d := h.Sum(nil)
	rd''', '''	for _, p := range parts[:1] {
		h.Write(p)
	}
	d := h.Sum(nil)
	rd'''), (KX, '''	for _, p := range parts {
		h.Write(p)
	}
	d := h.Sum(nil)
	err''', '''	for _, p := range parts[:1] {
		h.Write(p)
	}
	d := h.Sum(nil)
	err'''))
B('counter moves when sent', 'C16', (KX, '''	incSeq(&kx.writeSeq)
	_, err := xdr.Marshal(kx.Conn, payload)
	if err != nil {
		return ErrMarshal
	}
''', '''	_, err := xdr.Marshal(kx.Conn, payload)
	if err != nil {
		return ErrMarshal
	}
	incSeq(&kx.writeSeq)
'''))
B('counter moves when opened', 'C16', (KX, '''	incSeq(&kx.readSeq)
	if !ok {
		return nil, ErrDecrypt
	}
''', '''	if !ok {
		return nil, ErrDecrypt
	}
	incSeq(&kx.readSeq)
'''))
B('too large uses a number', 'C16', (KX, '''	if uint(len(data)+secretbox.Overhead) > kx.MaxMessageSize {
		return ErrOverflow
	}
	payload := secretbox.Seal(nil, data, &kx.writeSeq, k)
	incSeq(&kx.writeSeq)
''', '''	payload := secretbox.Seal(nil, data, &kx.writeSeq, k)
	incSeq(&kx.writeSeq)
	if uint(len(payload)) > kx.MaxMessageSize {
		return ErrOverflow
	}
'''))
B('new keys new counters', 'C16', (KX, '''	kx.readKey, kx.writeKey = deriveKeys(k1, k2, k3, k4)
''', '''	kx.readKey, kx.writeKey = deriveKeys(k1, k2, k3, k4)
	kx.readSeq, kx.writeSeq = [24]byte{}, [24]byte{}
'''), (KX, '''	kx.writeKey, kx.readKey = deriveKeys(k1, k2, k3, k4)
''', '''	kx.writeKey, kx.readKey = deriveKeys(k1, k2, k3, k4)
	kx.readSeq, kx.writeSeq = [24]byte{}, [24]byte{}
'''))
B('two bytes of counter', 'C16', (KX, 'for i := 0; i < 8; i++', 'for i := 0; i < 2; i++'))
B('carry is dropped', 'C16', (KX, '		n >>= 8\n', '		n >>= 16\n'))
B('sealed in halves', 'C16', (KX, '''	payload := secretbox.Seal(nil, data, &kx.writeSeq, k)
''', '''	var payload []byte
	if len(data) > 65536 {
		payload = secretbox.Seal(payload, data[:65536], &kx.writeSeq, k)
		data = data[65536:]
	}
	payload = secretbox.Seal(payload, data, &kx.writeSeq, k)
'''))
B('write retried', 'C16', (KX, '''	if err != nil {
		return ErrMarshal
	}
	return nil
}

// Write encrypts''', '''	if err != nil {
		_, err = xdr.Marshal(kx.Conn, secretbox.Seal(nil, data, &kx.writeSeq, k))
	}
	if err != nil {
		return ErrMarshal
	}
	return nil
}

// Write encrypts'''))
B('own counter for pings', 'C16', (KX, '''func (kx *KX) Write(data []byte) error {
''', '''func (kx *KX) Write(data []byte) error {
	if len(data) == 0 {
		var seq [24]byte
		_, err := xdr.Marshal(kx.Conn, secretbox.Seal(nil, data, &seq, kx.writeKey))
		return err
	}
'''))
B('reads with the writing counter', 'C16', (KX, '''	data, ok := secretbox.Open(nil, payload, &kx.readSeq, k)
	incSeq(&kx.readSeq)
''', '''	data, ok := secretbox.Open(nil, payload, &kx.readSeq, k)
	incSeq(&kx.writeSeq)
'''))
B('pong written at once', 'C16', (ZS, '''			sc.writer <- ''', '''			if message.Tag == 0 {
				go z.writeMessage(sc.kx, &RPCWrapper{})
			}
			sc.writer <- '''))
Q('kx proofs by closure', (KX, '''	h := hmac.New(sha256.New, mk[:])
	for _, p := range parts {
		h.Write(p)
	}
	d := h.Sum(nil)
	rd, err''', '''	d := proofOf(mk, parts)
	rd, err'''), (KX, '''	h := hmac.New(sha256.New, mk[:])
	for _, p := range parts {
		h.Write(p)
	}
	d := h.Sum(nil)
	err :=''', '''	d := proofOf(mk, parts)
	err :='''), (KX, '// sendProof sends', '''func proofOf(mk *[32]byte, parts [][]byte) []byte {
	h := hmac.New(sha256.New, mk[:])
	for i := 0; i < len(parts); i++ {
		h.Write(parts[i])
	}
	return h.Sum(nil)
}

// sendProof sends'''))
Q('kx subtle compare', (KX, '	if !hmac.Equal(d, rd) {', '	if subtle.ConstantTimeCompare(rd, d) != 1 {'), (KX, '	"crypto/sha512"\n', '	"crypto/sha512"\n	"crypto/subtle"\n'))
Q('kx incseq returns early', (KX, '''		n >>= 8
''', '''		n >>= 8
		if n == 0 {
			break
		}
'''))
Q('kx size check named', (KX, '''	if uint(len(data)+secretbox.Overhead) > kx.MaxMessageSize {
		return ErrOverflow
	}
''', '''	size := uint(len(data) + secretbox.Overhead)
	if kx.MaxMessageSize < size {
		return ErrOverflow
	}
'''))
Q('kx read checks then returns', (KX, '''	incSeq(&kx.readSeq)
	if !ok {
		return nil, ErrDecrypt
	}
	return data, nil
''', '''	incSeq(&kx.readSeq)
	if ok {
		return data, nil
	}
	return nil, ErrDecrypt
'''))
B('halves of two pairs', 'C15', (KX, '''	copy(epk[:], ephemeralPublic[:])
	copy(esk''', '''	copy(epk[:], ephemeralPublic[:])
	ephemeralMutex.Unlock()
	ephemeralMutex.Lock()
	copy(esk'''))
B('snapshot without the lock', 'C15', (KX, '''	ephemeralMutex.Lock()
	copy(epk[:], ephemeralPublic[:])
	copy(esk[:], ephemeralPrivate[:])
	ephemeralMutex.Unlock()''', '''	copy(epk[:], ephemeralPublic[:])
	copy(esk[:], ephemeralPrivate[:])'''))
B('counter stands still', 'C16', (KX, 'n := uint32(1)', 'n := uint32(0)'))
Q('kx snapshot by value', (KX, '''	copy(epk[:], ephemeralPublic[:])
	copy(esk[:], ephemeralPrivate[:])
	ephemeralMutex.Unlock()

	D(0, "[session.Respond]''', '''	*epk = ephemeralPublic
	*esk = ephemeralPrivate
	ephemeralMutex.Unlock()

	D(0, "[session.Respond]'''))
Q('kx erase by helper', (KX, '''	for i := range ephemeralPublic {
		ephemeralPublic[i] ^= ephemeralPublic[i]
	}
	for i := range ephemeralPrivate {
		ephemeralPrivate[i] ^= ephemeralPrivate[i]
	}
}
''', '''	wipe(ephemeralPublic[:])
	wipe(ephemeralPrivate[:])
}

func wipe(b []byte) {
	for i := 0; i < len(b); i++ {
		b[i] = 0
	}
}
'''))
Q('kx erase at once', (KX, '''	for i := range ephemeralPrivate {
		ephemeralPrivate[i] ^= ephemeralPrivate[i]
	}
''', '''	ephemeralPrivate = [sntrup4591761.PrivateKeySize]byte{}
'''))
B('nothing compared', 'C15', (KX, 'if !hmac.Equal(d, rd) {', 'if !hmac.Equal(d[:0], rd[:0]) {'))
# C09: however a session ends
B('not taken offline', 'C09', (ZS, '		z.account.Offline(rid)\n\n		// mark', '		// mark'))
B('quit not closed', 'C09', (ZS, '		close(sc.quit)\n\n		z.acc', '		z.acc'))
B('not taken off the list', 'C09', (ZS, '''		if z.sessions[rids] == &sc {
			delete(z.sessions, rids)
		}
		z.Unlock()

		z.Dbg(idS, "handleSession exit''', '''		z.Unlock()

		z.Dbg(idS, "handleSession exit'''))
B('successor off the list', 'C09', (ZS, '''		if z.sessions[rids] == &sc {
			delete(z.sessions, rids)
		}
''', '''		delete(z.sessions, rids)
'''))
B('somebody on the list', 'C09', (ZS, '''		if z.sessions[rids] == &sc {
			delete(z.sessions, rids)
		}
''', '''		if z.sessions[rids] != nil {
			delete(z.sessions, rids)
		}
'''))
B('compared before the lock', 'C09', (ZS, '''		z.Lock()
		if z.sessions[rids] == &sc {
			delete(z.sessions, rids)
		}
		z.Unlock()
''', '''		z.Lock()
		own := z.sessions[rids] == &sc
		z.Unlock()
		if own {
			z.Lock()
			delete(z.sessions, rids)
			z.Unlock()
		}
'''))
B('set-up failure before the defer', 'C09', (ZS, '''	z.Dbg(idS, "handleSession account online: %v", rids)
''', '''	z.Dbg(idS, "handleSession account online: %v", rids)

	if z.settings.Directory && !z.account.Enabled(rid) {
		return fmt.Errorf("handleSession: gone %v", rids)
	}
'''))
B('old session kept', 'C09', (ZS, '''				oldSc.kx.Close()
				delete(z.sessions, rids)
''', '''				_ = oldSc
				delete(z.sessions, rids)
'''))
B('deadline once', 'C09', (ZS, '''		kx.SetReadDeadline(time.Now().Add(15 * time.Second))

		// read''', '''		// read'''), (ZS, '''	tagBitmap := make([]bool, tagDepth)''', '''	kx.SetReadDeadline(time.Now().Add(15 * time.Second))
	tagBitmap := make([]bool, tagDepth)'''))
B('no deadline', 'C09', (ZS, '''		kx.SetReadDeadline(time.Now().Add(15 * time.Second))
''', '''		kx.SetReadDeadline(time.Time{})
'''))
B('writer does not drain', 'C09', (ZS, '''			select {
			case <-sc.quit:
				return
			case <-sc.writer:
			}
''', '''			<-sc.quit
			return
'''))
B('writer leaves', 'C09', (ZS, '''		for {
			select {
			case <-sc.quit:
				return
			case <-sc.writer:
			}
		}
	}()''', '''	}()'''))
B('notifier sends plainly', 'C09', (ZS, '''			select {
			case <-sc.quit:
				return
			case sc.writer <- &r:
			}
''', '''			sc.writer <- &r
'''))
B('notifier waits for a tag', 'C09', (ZS, 'sc.tagStack.PopQuit(sc.quit)', 'sc.tagStack.Pop()'))
B('PopQuit asks the wrong way', 'C09', (TG, '	if !s.blocking {\n		return s.Pop()', '	if s.blocking {\n		return s.Pop()'))
B('PopQuit does not look', 'C09', (TG, '''	case <-quit:
		return 0, ErrUnderflow
	case tag''', '''	case tag'''))
B('notifier does not look', 'C09', (ZS, '''		case <-sc.quit:
			z.T(idS, "sessionNtfn quit: %v", sc.rids)
			return

''', ''))
B('delivery sends plainly', 'C09', (AC, '''	select {
	case <-dn.quit:
	case dn.ntfn <- n:
	}
''', '''	dn.ntfn <- n
'''))
B('offline keeps the goroutine', 'C09', (AC, '		close(dn.quit)\n', '		_ = dn\n'))
B('offline keeps the account', 'C09', (AC, '	delete(a.online, who)\n', ''))
B('offline only when busy', 'C09', (AC, '''	if found {
		close(dn.quit)
	}
''', '''	if found && len(dn.work) == 0 {
		close(dn.quit)
	}
'''))
B('online twice', 'C09', (AC, '''	if found {
		a.Unlock()
		return ErrAlready''', '''	if found && len(a.online) > 1 {
		a.Unlock()
		return ErrAlready'''))
B('connection kept when disabled', 'C09', (ZS, '''	defer func() {
		conn.Close()
		z.Info''', '''	defer func() {
		if mode != rpc.InitialCmdSession {
			conn.Close()
		}
		z.Info'''), (ZS, '''	// pre session state
	var mode string
	for {''', '''	// pre session state
	for {'''), (ZS, '''	z.Dbg(idApp, "incoming connection: %v", conn.RemoteAddr())
''', '''	z.Dbg(idApp, "incoming connection: %v", conn.RemoteAddr())

	var mode string'''))
B('socket left open', 'C09', (ZS, '	defer c.Close()\n	jr', '	jr'))
B('accepted and dropped', 'C09', (ZS, '			conn.(*net.TCPConn).SetKeepAlive(true)\n', '''			if conn.(*net.TCPConn).SetKeepAlive(true) != nil {
				continue
			}
'''))
B('client stays online', 'C09', (ZC, '''		z.online = false
		z.kx.Close()
		z.kx = nil
		z.Unlock()

		if exit''', '''		z.online = exitError != nil
		z.kx.Close()
		z.kx = nil
		z.Unlock()

		if exit'''))
B('client keeps the connection', 'C09', (ZC, '''		z.kx.Close()
		z.kx = nil
		z.Unlock()

		if exit''', '''		z.kx = nil
		z.Unlock()

		if exit'''))
B('client does not retry on error', 'C09', (ZC, '''			z.Dbg(idRPC, "connection error: %v", exitError)
''', '''			z.Dbg(idRPC, "connection error: %v", exitError)
			if errors.Is(exitError, session.ErrDecrypt) {
				return
			}
'''))
B('heartbeat not told', 'C09', (ZC, '''		close(quit)
		wg.Wait()
''', '''		wg.Wait()
		close(quit)
'''))
B('heartbeat not waited for', 'C09', (ZC, '''		close(quit)
		wg.Wait()
''', '''		close(quit)
'''))
B('heartbeat says nothing', 'C09', (ZC, '''		defer func() {
			z.write.Lock()
			z.pingInProgress = false
			z.write.Unlock()

			wg.Done()
		}()
''', '''		defer func() {
			z.write.Lock()
			z.pingInProgress = false
			z.write.Unlock()
		}()
'''), (ZC, '''			case <-quit:
				return

			case <-timer.C:''', '''			case <-quit:
				wg.Done()
				return

			case <-timer.C:'''))
B('counted twice', 'C09', (ZC, '	wg.Add(1)\n', '	wg.Add(2)\n'))
B('handed over twice', 'C09', (ZC, '''	go z.handleRPC()

	return welcome, nil
''', '''	if len(welcome.Properties) > 0 {
		go z.handleRPC()
	}

	return welcome, nil
'''))
B('wrong certificate kept open', 'C09', (ZC, '''		conn.Close()
		z.provisionalCert''', '''		z.provisionalCert'''))
B('chain kept open', 'C09', (ZC, '''		conn.Close()
		return nil, nil, fmt.Errorf("unexpected cert''', '''		return nil, nil, fmt.Errorf("unexpected cert'''))
B('declined and kept open', 'C09', (AW, '			aw.conn.Close()\n', ''))
B('unverified identity kept open', 'C09', (WW, '''			if !pid.Verify() {
				conn.Close()
''', '''			if !pid.Verify() {
'''))
B('creation fails online', 'C09', (ZC, '''		z.Lock()
		z.online = false
		z.kx = nil
		z.Unlock()
		return err
	}

	sessionStarted''', '''		return err
	}

	sessionStarted'''))
B('retry timer', 'C09', (ZC, '''			// losing the connection starts another retry
			z.RUnlock()
			return
''', '''			z.RUnlock()
			continue
'''))
Q('td own first', (ZS, '''		z.account.Offline(rid)

		// mark session offline
		z.Lock()
		if z.sessions[rids] == &sc {
			delete(z.sessions, rids)
		}
		z.Unlock()
''', '''		// mark session offline
		z.Lock()
		if z.sessions[rids] == &sc {
			delete(z.sessions, rids)
		}
		z.Unlock()

		z.account.Offline(rid)
'''))
Q('td helper', (ZS, '''		// stop it all
		close(sc.quit)

		z.account.Offline(rid)

		// mark session offline
		z.Lock()
		if z.sessions[rids] == &sc {
			delete(z.sessions, rids)
		}
		z.Unlock()

		z.Dbg(idS, "handleSession exit: %v", rids)
	}()
''', '''		z.endSession(&sc, rid)
		z.Dbg(idS, "handleSession exit: %v", rids)
	}()
'''), (ZS, '''// handleSession deals''', '''// endSession stops it all.
func (z *ZKS) endSession(sc *sessionContext, rid [32]byte) {
	close(sc.quit)
	z.account.Offline(rid)

	// mark session offline
	z.Lock()
	defer z.Unlock()
	cur, ok := z.sessions[sc.rids]
	if !ok || cur != sc {
		return
	}
	delete(z.sessions, sc.rids)
}

// handleSession deals'''))
Q('td drain by range', (ZS, '''		for {
			select {
			case <-sc.quit:
				return
			case <-sc.writer:
			}
		}
	}()''', '''		for done := false; !done; {
			select {
			case <-sc.quit:
				done = true
			case m := <-sc.writer:
				_ = m
			}
		}
	}()'''))
Q('td writer reply select', (SA, '''	writer <- &reply
''', '''	r := &reply
	writer <- r
'''))
Q('td work before listed', (AC, '''	a.online[who] = dn
	a.Unlock()

	go func() {
		// first time around start delivering, unless told to already
		select {
		case dn.work <- struct{}{}:
		default:
		}

''', '''	// first time around start delivering
	dn.work <- struct{}{}
	a.online[who] = dn
	a.Unlock()

	go func() {
'''))
Q('td offline inline', (AC, '''	defer a.Unlock()
	a.offline(who)
''', '''	defer a.Unlock()
	if dn, ok := a.online[who]; ok {
		delete(a.online, who)
		close(dn.quit)
	}
'''), (AC, '''// offline closes open quit channels and deletes an account from the online
// map. This function must be called WITH the mutex held.
func (a *Account) offline(who [zkidentity.IdentitySize]byte) {
	dn, found := a.online[who]
	if found {
		close(dn.quit)
	}
	delete(a.online, who)
}

''', ''))
Q('td preSession explicit', (ZS, '''	go z.preSession(tls.Server(conn, &config))
''', '''	go func(c net.Conn) {
				z.preSession(tls.Server(c, &config))
			}(conn)
'''))
Q('td deadline helper', (ZS, '''		kx.SetReadDeadline(time.Now().Add(15 * time.Second))
''', '''		deadline := time.Now().Add(15 * time.Second)
		kx.SetReadDeadline(deadline)
'''))
Q('td client end method', (ZC, '''		z.Lock()
		z.online = false
		z.kx.Close()
		z.kx = nil
		z.Unlock()

		if exit''', '''		z.sessionOver()

		if exit'''), (ZC, '''// handleRPC deals with all''', '''func (z *ZKC) sessionOver() {
	z.Lock()
	defer z.Unlock()
	z.kx.Close()
	z.kx = nil
	z.online = false
}

// handleRPC deals with all'''))
Q('td heartbeat method', (ZC, '''	wg.Add(1)
	go func() {
		defer func() {
			z.write.Lock()
			z.pingInProgress = false
			z.write.Unlock()

			wg.Done()
		}()
''', '''	wg.Add(1)
	go func() {
		defer wg.Done()
		defer func() {
			z.write.Lock()
			z.pingInProgress = false
			z.write.Unlock()
		}()
'''))
Q('td goOnline defer', (ZC, '''	conn, cs, err := z.preSessionPhase()
	if err != nil {
		return nil, err
	}

	// XXX check cert here
	if !bytes.Equal(cs.PeerCertificates[0].Raw, z.cert) {
		conn.Close()
		z.provisionalCert = cs.PeerCertificates[0].Raw
		return nil, errCert
	}

	kx, err := z.sessionPhase(conn)
	if err != nil {
		conn.Close()
		return nil, err
	}

	welcome, err := z.welcomePhase(kx)
	if err != nil {
		conn.Close()
		return nil, err
	}
''', '''	conn, cs, err := z.preSessionPhase()
	if err != nil {
		return nil, err
	}
	failed := true
	defer func() {
		if failed {
			conn.Close()
		}
	}()

	// XXX check cert here
	if !bytes.Equal(cs.PeerCertificates[0].Raw, z.cert) {
		z.provisionalCert = cs.PeerCertificates[0].Raw
		return nil, errCert
	}

	kx, err := z.sessionPhase(conn)
	if err != nil {
		return nil, err
	}

	welcome, err := z.welcomePhase(kx)
	if err != nil {
		return nil, err
	}
	failed = false
'''))
Q('td retry time.After', (ZC, '''	d := 30 * time.Second
	timer := time.NewTimer(d)
''', '''	d := 30 * time.Second
'''), (ZC, '		<-timer.C\n		z.RLock()', '		<-time.After(d)\n		z.RLock()'), (ZC, '		timer.Reset(d)\n', ''))
Q('td online when offline only', (AC, '''	_, found := a.online[who]
	if found {
		a.Unlock()
		return ErrAlready''', '''	if _, found := a.online[who]; found {
		a.Unlock()
		return ErrAlready'''))

# C24
B('kill sent as kick','C24',(MS,'cmd.Command = rpc.CRPCCmdGroupKill','cmd.Command = rpc.CRPCCmdGroupKick'))
B('list decoded as update','C24',(PU,'''		var gl rpc.GroupList
		_, err = unmarshal(rd, &gl)''','''		var gl rpc.GroupList
		var gu rpc.GroupUpdate
		_, err = unmarshal(rd, &gu)
		gl = gu.NewGroupList'''))
B('comp markers swapped','C24',(MS,'return bb.Bytes(), rpc.CRPCCompNone, nil','return bb.Bytes(), rpc.CRPCCompZLIB, nil'))
B('comp not marked','C24',(MS,'	cmd.Compression = compression\n','	_ = compression\n'))
B('compressed body of none','C24',(MS,'	if bb.Len() < len(cb.Bytes()) {\n		return bb.Bytes(),','	if bb.Len() < len(cb.Bytes()) {\n		return cb.Bytes(),'))
B('zlib not closed','C24',(MS,'		wc.Close()\n','		_ = wc\n'))
B('payload before header','C24',(ZS,'''	_, err := xdr.Marshal(&bb, msg.Message)
	if err != nil {
		return fmt.Errorf("could not marshal message %v",
			msg.Message.Command)
	}
	_, err = xdr.Marshal(&bb, msg.Payload)''','''	_, err := xdr.Marshal(&bb, msg.Payload)
	if err != nil {
		return fmt.Errorf("could not marshal message %v",
			msg.Message.Command)
	}
	_, err = xdr.Marshal(&bb, msg.Message)'''))
B('header only','C24',(ZC,'''	_, err = xdr.Marshal(&bb, payload)
	if err != nil {
		return fmt.Errorf("could not marshal payload %v", msg.Command)
	}
''','''	if payload != nil && msg.Command != rpc.TaggedCmdPing {
		_, err = xdr.Marshal(&bb, payload)
		if err != nil {
			return fmt.Errorf("could not marshal payload %v", msg.Command)
		}
	}
'''))
B('inflate everything','C24',(PU,'''	case rpc.CRPCCompNone:
		rd = br
	case rpc.CRPCCompZLIB:''','''	case rpc.CRPCCompNone, rpc.CRPCCompZLIB:'''))
B('never inflate','C24',(PU,'''		rd, err = zlib.NewReader(br)
		if err != nil {
			return fmt.Errorf("could not decompress: %v", err)
		}
''','''		_, err = zlib.NewReader(br)
		if err != nil {
			return fmt.Errorf("could not decompress: %v", err)
		}
		rd = br
'''))
B('unknown compression tolerated','C24',(PU,'''	default:
		return fmt.Errorf("invalid compression: %v", crpc.Compression)
	}
''','''	default:
		rd = br
	}
'''))
B('part not dispatched','C24',(PU,'	case rpc.CRPCCmdGroupPart:','	case rpc.CRPCCmdGroupPart + "x":'))
B('pong as ping','C24',(ZC,'			var p rpc.Pong\n','			var p rpc.Push\n'))
B('fetch sent as rendezvous','C24',(ZC,'			Command: rpc.TaggedCmdRendezvousPull,','			Command: rpc.TaggedCmdRendezvous,'))
B('proxy payload cache','C24',(ZC,'''		rpc.Proxy{
			To:      id.Identity,
			Payload: bb.Bytes(),
		})''','''		rpc.Cache{
			To:      id.Identity,
			Payload: bb.Bytes(),
		})'''))
B('server reads cache as proxy','C24',(ZS,'''			var r rpc.Cache
			_, err = z.unmarshal(br, &r)
			if err != nil {''','''			var r rpc.Cache
			var q rpc.Push
			_, err = z.unmarshal(br, &q)
			r.Payload = q.Payload
			if err != nil {'''))
B('server drops proxy','C24',(ZS,'		case rpc.TaggedCmdProxy:','		case rpc.TaggedCmdProxyReply:'))
B('account reply before request','C24',(ZC,'''	_, err = xdr.Marshal(conn, ca)
	if err != nil {''','''	_, err = xdr.Marshal(conn, ca.PublicIdentity)
	if err != nil {'''))
B('identify answered with full','C24',(ZS,'			_, err = xdr.Marshal(conn, z.id.Public)','			_, err = xdr.Marshal(conn, z.id.Public.Name)'))
B('idkx sends only kx','C24',(ZC,'	_, err = xdr.Marshal(idkxXDR, idkx)','	_, err = xdr.Marshal(idkxXDR, idkx.Identity)'))
B('pm handed empty','C24',(PU,'return z.handlePm(msg, p, pm)','return z.handlePm(msg, p, rpc.PrivateMessage{Text: string(p.Payload[:0]) + "x", Mode: rpc.MessageModeNormal})'))
B('body of the bulk cut','C24',(MS,'	bb.Write(p)\n','	if len(p) < 65536 {\n		bb.Write(p)\n	}\n'))
B('welcome as unwelcome','C24',(ZS,'''	message := rpc.Message{
		Command: rpc.SessionCmdUnwelcome,
	}''','''	message := rpc.Message{
		Command: rpc.SessionCmdWelcome,
	}'''))
B('queued type not sealed','C24',('zkclient/groupchat.go','	z.scheduleCRPC(true, &id.Identity, *gi)','	z.scheduleCRPC(true, &id.Identity, gi)'))
Q('one marshal for all',(MS,'''	case rpc.GroupJoin:
		_, err = xdr.Marshal(&bb, p)
		if err != nil {
			return nil, "",
				fmt.Errorf("could not marshal group join")
		}
	case rpc.GroupList:
		_, err = xdr.Marshal(&bb, p)
		if err != nil {
			return nil, "",
				fmt.Errorf("could not marshal group list")
		}
''','''	case rpc.GroupJoin, rpc.GroupList:
		_, err = xdr.Marshal(&bb, p)
		if err != nil {
			return nil, "",
				fmt.Errorf("could not marshal %T", p)
		}
'''))
Q('encode helper',(ZC,'''	var bb bytes.Buffer
	_, err := xdr.Marshal(&bb, msg)
	if err != nil {
		return fmt.Errorf("could not marshal message %v", msg.Command)
	}
	_, err = xdr.Marshal(&bb, payload)
	if err != nil {
		return fmt.Errorf("could not marshal payload %v", msg.Command)
	}

	err = kx.Write(bb.Bytes())
''','''	data, err := encodeMessage(msg, payload)
	if err != nil {
		return err
	}

	err = kx.Write(data)
'''),(ZC,'''// writeMessage marshals and sends''','''func encodeMessage(msg *rpc.Message, payload interface{}) ([]byte, error) {
	var bb bytes.Buffer
	for _, v := range []interface{}{msg, payload} {
		_, err := xdr.Marshal(&bb, v)
		if err != nil {
			return nil, fmt.Errorf("could not marshal message %v", msg.Command)
		}
	}
	return bb.Bytes(), nil
}

// writeMessage marshals and sends'''))
Q('encode helper2',(ZC,'''	var bb bytes.Buffer
	_, err := xdr.Marshal(&bb, msg)
	if err != nil {
		return fmt.Errorf("could not marshal message %v", msg.Command)
	}
	_, err = xdr.Marshal(&bb, payload)
	if err != nil {
		return fmt.Errorf("could not marshal payload %v", msg.Command)
	}

	err = kx.Write(bb.Bytes())
''','''	data, err := encodeMessage(msg, payload)
	if err != nil {
		return err
	}

	err = kx.Write(data)
'''),(ZC,'''// writeMessage marshals and sends''','''func encodeMessage(msg *rpc.Message, payload interface{}) ([]byte, error) {
	bb := new(bytes.Buffer)
	if _, err := xdr.Marshal(bb, msg); err != nil {
		return nil, fmt.Errorf("could not marshal message %v", msg.Command)
	}
	if _, err := xdr.Marshal(bb, payload); err != nil {
		return nil, fmt.Errorf("could not marshal payload %v", msg.Command)
	}
	return bb.Bytes(), nil
}

// writeMessage marshals and sends'''))
Q('command function',(MS,'''	// set payload type
	switch payload.(type) {
	case rpc.PrivateMessage:
		cmd.Command = rpc.CRPCCmdPrivateMessage
	case rpc.GroupInvite:
		cmd.Command = rpc.CRPCCmdGroupInvite
''','''	// set payload type
	if _, ok := payload.(rpc.PrivateMessage); ok {
		cmd.Command = rpc.CRPCCmdPrivateMessage
	} else if _, ok := payload.(rpc.GroupInvite); ok {
		cmd.Command = rpc.CRPCCmdGroupInvite
	} else { switch payload.(type) {
'''),(MS,'''		return nil, fmt.Errorf("unknown crpc type: %T", payload)
	}
''','''		return nil, fmt.Errorf("unknown crpc type: %T", payload)
	}}
'''))
Q('dispatch extracted',(PU,'''	// decode Payload
	switch crpc.Command {''','''	return z.dispatch(msg, p, crpc, rd)
}

func (z *ZKC) dispatch(msg rpc.Message, p rpc.Push, crpc rpc.CRPC, rd io.Reader) error {
	var err error
	switch crpc.Command {'''))
Q('send request helper',(ZC,'''	z.schedulePRPC(true,
		rpc.Message{
			Command: rpc.TaggedCmdRendezvousPull,
			Tag:     tag,
		},
		rpc.RendezvousPull{
			Token: pin,
		})

	return nil
}
''','''	z.request(rpc.TaggedCmdRendezvousPull, tag,
		rpc.RendezvousPull{
			Token: pin,
		})

	return nil
}

func (z *ZKC) request(cmd string, tag uint32, payload interface{}) {
	z.schedulePRPC(true, rpc.Message{Command: cmd, Tag: tag}, payload)
}
'''))
Q('mode helper',(ZC,'''	_, err := xdr.Marshal(conn, rpc.InitialCmdSession)
	if err != nil {''','''	err := setMode(conn, rpc.InitialCmdSession)
	if err != nil {'''),(ZC,'''	_, err := xdr.Marshal(conn, rpc.InitialCmdCreateAccount)
	if err != nil {''','''	err := setMode(conn, rpc.InitialCmdCreateAccount)
	if err != nil {'''),(ZC,'''	_, err = xdr.Marshal(conn, ca)
	if err != nil {''','''	_, err = xdr.Marshal(conn, &ca)
	if err != nil {'''),(ZC,'func (z *ZKC) sessionPhase(','''func setMode(conn net.Conn, mode string) error {
	_, err := xdr.Marshal(conn, mode)
	return err
}

func (z *ZKC) sessionPhase('''))
ZS='zkserver/zkserver.go';ACC='zkserver/account/account.go';RZ='zkserver/rendezvous.go';CA3='zkserver/cache.go';SA='zkserver/account.go';PN3='zkserver/pending.go'
Q('srv ack extracted', (ZS, '''			sc.Lock()
			m := sc.tagMessage[message.Tag]
			sc.Unlock()

			z.T(idS, "handleSession: %v got ack tag %v",
				rids,
				message.Tag)

			// a tag can only be returned once
			if m == nil {
				return fmt.Errorf("acknowledge for unused tag: "+
					"%v %v", message.Tag, rids)
			}

			// sanity
			if m != nil && m.Message.Tag != message.Tag {
				return fmt.Errorf("acknowledge tag doesn't "+
					"match: %v %v %v",
					m.Message.Tag,
					message.Tag,
					rids)
			}
			// see if we have work to do
			if m != nil && m.Message.Command == rpc.TaggedCmdPush {
				from := kx.TheirIdentity().([32]byte)
				// err is reporting only
				err = z.account.Delete(from, m.Identifier)
				if err != nil {
					z.Error(idS,
						"handleSession: %v delete "+
							"failed %v %v",
						rids,
						m.Identifier,
						err)
				}
			}

			// mark free
			sc.Lock()
			sc.tagMessage[message.Tag] = nil
			sc.Unlock()

			// just push tag for now
			err = sc.tagStack.Push(message.Tag)
			if err != nil {
				return fmt.Errorf("Acknowledge can't push tag: %v",
					message.Tag)
			}
			z.T(idS, "handleSession: %v ack tag %v",
				rids,
				message.Tag)
''', '''			err = z.handleAcknowledge(&sc, message)
			if err != nil {
				return err
			}
'''), (ZS, '''// handleSession deals with incoming RPC calls.''', '''// handleAcknowledge frees the tag of a message the client acknowledged.
func (z *ZKS) handleAcknowledge(sc *sessionContext, message rpc.Message) error {
	sc.Lock()
	m := sc.tagMessage[message.Tag]
	sc.Unlock()
	if m == nil {
		return fmt.Errorf("acknowledge for unused tag: %v %v",
			message.Tag, sc.rids)
	}
	if m.Message.Tag != message.Tag {
		return fmt.Errorf("acknowledge tag doesn't match: %v %v %v",
			m.Message.Tag, message.Tag, sc.rids)
	}
	if m.Message.Command == rpc.TaggedCmdPush {
		from := sc.kx.TheirIdentity().([32]byte)
		err := z.account.Delete(from, m.Identifier)
		if err != nil {
			z.Error(idS, "handleAcknowledge: %v delete failed %v %v",
				sc.rids, m.Identifier, err)
		}
	}

	sc.Lock()
	sc.tagMessage[message.Tag] = nil
	sc.Unlock()

	err := sc.tagStack.Push(message.Tag)
	if err != nil {
		return fmt.Errorf("Acknowledge can't push tag: %v", message.Tag)
	}
	return nil
}

// handleSession deals with incoming RPC calls.'''))
Q('srv ntfn record helper', (ZS, '''			sc.Lock()
			if sc.tagMessage[tag] != nil {
				sc.Unlock()
				z.Error(idS, "write duplicate tag: %v %v",
					sc.rids,
					tag)
				return
			}

			// translate notification into msg
			r := RPCWrapper{
				Message: rpc.Message{
					Command:   rpc.TaggedCmdPush,
					Cleartext: n.Cleartext,
					Tag:       tag,
				},
				Payload: rpc.Push{
					From:     n.From,
					Received: n.Received,
					Payload:  n.Payload,
				},
				Identifier: n.Identifier,
			}
			sc.tagMessage[tag] = &r
			sc.Unlock()
''', '''			// translate notification into msg
			r := pushMessage(n, tag)
			sc.Lock()
			inUse := sc.tagMessage[tag] != nil
			if !inUse {
				sc.tagMessage[tag] = r
			}
			sc.Unlock()
			if inUse {
				z.Error(idS, "write duplicate tag: %v %v",
					sc.rids,
					tag)
				return
			}
'''), (ZS, 'case sc.writer <- &r:\n			}\n		}\n	}\n}\n', '''case sc.writer <- r:
			}
		}
	}
}

func pushMessage(n *account.Notification, tag uint32) *RPCWrapper {
	r := new(RPCWrapper)
	r.Message.Command = rpc.TaggedCmdPush
	r.Message.Cleartext = n.Cleartext
	r.Message.Tag = tag
	r.Payload = rpc.Push{
		From:     n.From,
		Received: n.Received,
		Payload:  n.Payload,
	}
	r.Identifier = n.Identifier
	return r
}
'''))
Q('srv deliver temp file helper', (ACC, '''	f, err := ioutil.TempFile(a.accountFile(to, ""), "deliver")
	if err != nil {
		return "", fmt.Errorf("could not write to %v: %v", cache, err)
	}
	_, err = f.Write(b.Bytes())
	if err == nil {
		err = f.Sync()
	}
	if cerr := f.Close(); err == nil {
		err = cerr
	}
	if err == nil {
		err = os.Rename(f.Name(), fullPath)
	}
	if err != nil {
		os.Remove(f.Name())
		return "", fmt.Errorf("could not write to %v: %v", cache, err)
	}

	// notify
	dn, found := a.online[to]
	if !found {
		return fullPath, nil
	}

	// notify producer that there is work
	select {
	case dn.work <- struct{}{}:
	default:
	}

	return fullPath, nil
}
''', '''	err = writeFile(a.accountFile(to, ""), fullPath, b.Bytes())
	if err != nil {
		return "", fmt.Errorf("could not write to %v: %v", cache, err)
	}

	// notify producer that there is work
	if dn, found := a.online[to]; found {
		select {
		case dn.work <- struct{}{}:
		default:
		}
	}

	return fullPath, nil
}

// writeFile writes data to a file in dir and moves it to name.
func writeFile(dir, name string, data []byte) error {
	f, err := ioutil.TempFile(dir, "deliver")
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err != nil {
		f.Close()
		os.Remove(f.Name())
		return err
	}
	err = f.Sync()
	if err != nil {
		f.Close()
		os.Remove(f.Name())
		return err
	}
	err = f.Close()
	if err != nil {
		os.Remove(f.Name())
		return err
	}
	err = os.Rename(f.Name(), name)
	if err != nil {
		os.Remove(f.Name())
		return err
	}
	return nil
}
'''))
Q('srv read disk message helper', (ACC, '''				filename := path.Join(cache, v.Name())
				f, err := os.Open(filename)
				if err != nil {
					dn.send(&Notification{
						Error: fmt.Errorf("%v: %v",
							filename, err)})
					continue
				}

				var dm diskMessage
				_, err = xdr.Unmarshal(f, &dm)
				// Special error handling because of prior
				// upgrade where we added Cleartext to the
				// diskMessage. A short read is therefore
				// an error we must ignore.
				if err != nil {
					var uerr *xdr.UnmarshalError
					if !errors.As(err, &uerr) ||
						uerr.ErrorCode != xdr.ErrIO ||
						!errors.Is(uerr.Err, io.EOF) {

						f.Close()
						dn.send(&Notification{
							Error: fmt.Errorf("%v: unmarshal %v",
								filename, err),
						})
						continue
					}
				}
				f.Close()

				// notify and block
				dn.send(&Notification{
					To:         who,
					From:       dm.From,
					Received:   dm.Received,
					Payload:    dm.Payload,
					Cleartext:  dm.Cleartext,
					Identifier: v.Name(),
				})
''', '''				dm, err := readDiskMessage(path.Join(cache, v.Name()))
				if err != nil {
					dn.send(&Notification{Error: err})
					continue
				}

				// notify and block
				dn.send(&Notification{
					To:         who,
					From:       dm.From,
					Received:   dm.Received,
					Payload:    dm.Payload,
					Cleartext:  dm.Cleartext,
					Identifier: v.Name(),
				})
'''), (ACC, '''func (dn *diskNotification) send(''', '''func readDiskMessage(filename string) (*diskMessage, error) {
	f, err := os.Open(filename)
	if err != nil {
		return nil, fmt.Errorf("%v: %v", filename, err)
	}
	defer f.Close()

	dm := &diskMessage{}
	_, err = xdr.Unmarshal(f, dm)
	if err == nil {
		return dm, nil
	}
	// messages of an earlier version are shorter
	var uerr *xdr.UnmarshalError
	if errors.As(err, &uerr) && uerr.ErrorCode == xdr.ErrIO &&
		errors.Is(uerr.Err, io.EOF) {
		return dm, nil
	}
	return nil, fmt.Errorf("%v: unmarshal %v", filename, err)
}

func (dn *diskNotification) send('''))
Q('srv processed mark helper', (ACC, '''				a.Lock()
				_, found := dn.processed[v.Name()]
				if found {
					a.Unlock()
					continue
				}
				dn.processed[v.Name()] = struct{}{}
				a.Unlock()
''', '''				if a.alreadyProcessed(&dn, v.Name()) {
					continue
				}
'''), (ACC, '''func (dn *diskNotification) send(''', '''// alreadyProcessed marks name processed and reports if it was before.
func (a *Account) alreadyProcessed(dn *diskNotification, name string) bool {
	a.Lock()
	defer a.Unlock()
	if _, found := dn.processed[name]; found {
		return true
	}
	dn.processed[name] = struct{}{}
	return false
}

func (dn *diskNotification) send('''))
Q('srv token helpers', (PN3, '''	// check expiration
	t, err := strconv.ParseInt(v, 10, 64)
	if err != nil {
		z.Error(idApp, "%v corrupt token %v", conn.RemoteAddr(), token)
		return false
	}
	ts := time.Unix(t, 0)
	if ts.Before(time.Now()) {
		z.Dbg(idApp, "%v token expired %v", conn.RemoteAddr(), token)
		return false
	}

	return true
}''', '''	if tokenExpired(v) {
		z.Dbg(idApp, "%v token expired %v", conn.RemoteAddr(), token)
		return false
	}

	return true
}

func tokenExpired(v string) bool {
	t, err := strconv.ParseInt(v, 10, 64)
	if err != nil {
		return true
	}
	return time.Now().After(time.Unix(t, 0))
}'''))
Q('srv token expiry first', (PN3, '''	// delete token
	err = pending.Del("", token)
	if err != nil {
		z.Error(idApp, "could not delete token %v", conn.RemoteAddr(),
			token)
		return false
	}
	err = pending.Save()
	if err != nil {
		z.Error(idApp, "could not save pending db: %v", err)
		return false
	}

	// check expiration
	t, err := strconv.ParseInt(v, 10, 64)
	if err != nil {
		z.Error(idApp, "%v corrupt token %v", conn.RemoteAddr(), token)
		return false
	}
	ts := time.Unix(t, 0)
	if ts.Before(time.Now()) {
		z.Dbg(idApp, "%v token expired %v", conn.RemoteAddr(), token)
		return false
	}

	return true
''', '''	// check expiration
	t, err := strconv.ParseInt(v, 10, 64)
	corrupt := err != nil

	// delete token
	err = pending.Del("", token)
	if err == nil {
		err = pending.Save()
	}
	if err != nil {
		z.Error(idApp, "could not delete token %v: %v", conn.RemoteAddr(), err)
		return false
	}
	if corrupt {
		return false
	}
	return !time.Unix(t, 0).Before(time.Now())
'''))
Q('srv create policy ifs', (SA, '''	switch z.settings.CreatePolicy {
	default:
		fallthrough
	case "no":
		z.accountReplyFailure("disallowing account create", conn, ca)
		return fmt.Errorf("disallowing account create")
	case "token":
		if !z.validToken(ca.Token, conn) {
			z.accountReplyFailure("invalid account create token",
				conn, ca)
			return fmt.Errorf("invalid account create token")
		}
	case "yes":
	}
''', '''	if err := z.mayCreate(conn, ca); err != nil {
		z.accountReplyFailure(err.Error(), conn, ca)
		return err
	}
'''), (SA, 'func (z *ZKS) handleAccountCreate(', '''// mayCreate returns an error if policy does not allow the account.
func (z *ZKS) mayCreate(conn net.Conn, ca rpc.CreateAccount) error {
	if z.settings.CreatePolicy == "yes" {
		return nil
	}
	if z.settings.CreatePolicy != "token" {
		return fmt.Errorf("disallowing account create")
	}
	if z.validToken(ca.Token, conn) {
		return nil
	}
	return fmt.Errorf("invalid account create token")
}

func (z *ZKS) handleAccountCreate('''))
Q('srv identity decode helper', (SA, '''	id, err := hex.DecodeString(ud.Identity)
	if err != nil {
		udr.Error = err.Error()
		return
	}
	if len(id) != zkidentity.IdentitySize {
		udr.Error = "invalid identity size"
		return
	}
	var pid [zkidentity.IdentitySize]byte
	copy(pid[:], id)
	err = z.account.Disable(pid)
	if err != nil {
		udr.Error = err.Error()
		return
	}

	return
''', '''	pid, err := decodeIdentity(ud.Identity)
	if err == nil {
		err = z.account.Disable(*pid)
	}
	if err != nil {
		udr.Error = err.Error()
	}
	return udr
'''), (SA, '''	id, err := hex.DecodeString(ue.Identity)
	if err != nil {
		uer.Error = err.Error()
		return
	}
	if len(id) != zkidentity.IdentitySize {
		uer.Error = "invalid identity size"
		return
	}
	var pid [zkidentity.IdentitySize]byte
	copy(pid[:], id)
	err = z.account.Enable(pid)
''', '''	pid, err := decodeIdentity(ue.Identity)
	if err != nil {
		uer.Error = err.Error()
		return
	}
	err = z.account.Enable(*pid)
'''), (SA, '// handleIdentityDisable always', '''func decodeIdentity(s string) (*[zkidentity.IdentitySize]byte, error) {
	var pid [zkidentity.IdentitySize]byte
	id, err := hex.DecodeString(s)
	if err != nil {
		return nil, err
	}
	if len(id) != len(pid) {
		return nil, fmt.Errorf("invalid identity size")
	}
	copy(pid[:], id)
	return &pid, nil
}

// handleIdentityDisable always'''))
Q('srv rendezvous pull no goto', (RZ, '''	// vars to deal with go bitching about goto
	var (
		rzXDR    []byte
		rzRecord rpc.Rendezvous
		br       *bytes.Reader
	)

	// get token
	v, err := rz.Get("", r.Token)
	if err != nil {
		payload.Error = "invalid PIN"
		goto bad
	}

	// decode value
	rzXDR, err = base64.StdEncoding.DecodeString(v)
	if err != nil {
		payload.Error = "internal error base64decode"
		goto bad
	}
	br = bytes.NewReader(rzXDR)
	_, err = z.unmarshal(br, &rzRecord)
	if err != nil {
		payload.Error = "internal error unmarshal"
		goto bad
	}

	// XXX check for expiration here

	// setup reply
	payload.Error = ""
	payload.Token = r.Token
	payload.Blob = rzRecord.Blob
bad:
	reply.Payload = payload
''', '''	record, err := z.rendezvousRecord(rz, r.Token)
	if err != nil {
		payload.Error = err.Error()
	} else {
		payload = rpc.RendezvousPullReply{
			Token: r.Token,
			Blob:  record.Blob,
		}
	}
	reply.Payload = payload
'''), (RZ, '''func (z *ZKS) handleRendezvousPull(''', '''// rendezvousRecord returns the record stored under token.
func (z *ZKS) rendezvousRecord(rz *inidb.INIDB, token string) (*rpc.Rendezvous, error) {
	v, err := rz.Get("", token)
	if err != nil {
		return nil, errors.New("invalid PIN")
	}
	b, err := base64.StdEncoding.DecodeString(v)
	if err != nil {
		return nil, errors.New("internal error base64decode")
	}
	var record rpc.Rendezvous
	_, err = z.unmarshal(bytes.NewReader(b), &record)
	if err != nil {
		return nil, errors.New("internal error unmarshal")
	}
	return &record, nil
}

func (z *ZKS) handleRendezvousPull('''))
Q('srv rendezvous size const', (RZ, '''	if len(r.Blob) > 4096 {
		payload.Error = "invalid blob size"
		goto bad
	}
	if exp, err := strconv.ParseUint(r.Expiration, 10, 64); err != nil ||
		exp > 168 {
		payload.Error = "invalid expiration"
		goto bad
	}
''', '''	payload.Error = checkRendezvous(r)
	if payload.Error != "" {
		goto bad
	}
	payload.Error = "internal error, contact server administrator"
'''), (RZ, '''func (z *ZKS) handleRendezvousPull(''', '''const (
	maxBlob  = 4096
	maxHours = 24 * 7
)

func checkRendezvous(r rpc.Rendezvous) string {
	if maxBlob < len(r.Blob) {
		return "invalid blob size"
	}
	exp, err := strconv.ParseUint(r.Expiration, 10, 64)
	if err == nil && exp <= maxHours {
		return ""
	}
	return "invalid expiration"
}

func (z *ZKS) handleRendezvousPull('''))
Q('srv find reply ifs', (SA, '''	id, err := z.account.Find(nick)
	if err != nil {
		payload.Error = fmt.Sprintf("nick not found: %v", nick)
	} else {
		payload.Identity = *id
	}
	reply.Payload = payload
''', '''	if id, err := z.account.Find(nick); err == nil {
		payload.Identity = *id
	} else {
		payload.Error = fmt.Sprintf("nick not found: %v", nick)
	}
	reply.Payload = payload
'''))
Q('srv proxy from helper', (CA3, '''	var (
		from [zkidentity.IdentitySize]byte
		ok   bool
	)
	from, ok = kx.TheirIdentity().([32]byte)
	if !ok {
		return fmt.Errorf("invalid identity type")
	}
	filename, err := z.account.Deliver(proxy.To, from, proxy.Payload, true)
''', '''	from, err := senderOf(kx)
	if err != nil {
		return err
	}
	filename, err := z.account.Deliver(proxy.To, from, proxy.Payload, true)
'''), (CA3, 'func (z *ZKS) handleProxy(', '''func senderOf(kx *session.KX) (from [zkidentity.IdentitySize]byte, err error) {
	id, ok := kx.TheirIdentity().([32]byte)
	if !ok {
		err = fmt.Errorf("invalid identity type")
		return
	}
	from = id
	return
}

func (z *ZKS) handleProxy('''))
Q('srv tag check helper', (ZS, '''		if tagBitmap[message.Tag] {
			return fmt.Errorf("read duplicate tag: %v", message.Tag)
		}
		tagBitmap[message.Tag] = true
''', '''		if !claimTag(tagBitmap, message.Tag) {
			return fmt.Errorf("read duplicate tag: %v", message.Tag)
		}
'''), (ZS, '''// handleSession deals with incoming RPC calls.''', '''func claimTag(used []bool, tag uint32) bool {
	if used[tag] {
		return false
	}
	used[tag] = true
	return true
}

// handleSession deals with incoming RPC calls.'''))
Q('srv knock helper', (ZS, '''			z.Lock()
			if oldSc, ok := z.sessions[rids]; ok {
				// Closing the connection should knock
				// everything offline.
				oldSc.kx.Close()
				delete(z.sessions, rids)
			} else {
				// This should not happen.
				z.Unlock()
				return fmt.Errorf("handleSession: account "+
					"online without a session %v", rids)
			}
			z.Unlock()
''', '''			if !z.knockOffline(rids) {
				// This should not happen.
				return fmt.Errorf("handleSession: account "+
					"online without a session %v", rids)
			}
'''), (ZS, '''// handleSession deals with incoming RPC calls.''', '''// knockOffline closes the session of rids and reports if there was one.
func (z *ZKS) knockOffline(rids string) bool {
	z.Lock()
	defer z.Unlock()
	sc, found := z.sessions[rids]
	if !found {
		return false
	}
	sc.kx.Close()
	delete(z.sessions, rids)
	return true
}

// handleSession deals with incoming RPC calls.'''))
Q('srv session map undo order', (ZS, '''		// stop it all
		close(sc.quit)

		z.account.Offline(rid)

		// mark session offline
		z.Lock()
		if z.sessions[rids] == &sc {
			delete(z.sessions, rids)
		}
		z.Unlock()
''', '''		// mark session offline
		z.Lock()
		cur, listed := z.sessions[rids]
		if listed && cur == &sc {
			delete(z.sessions, rids)
		}
		z.Unlock()

		// stop it all
		close(sc.quit)
		z.account.Offline(rid)
'''))
Q('srv create stat switch', (ACC, '''	accountName := a.accountDir(pid.Identity)
	_, err = os.Stat(accountName)
	if err == nil {
		if !force {
			return fmt.Errorf("account already exists: %v",
				accountName)
		}
	}
''', '''	if !force && a.Enabled(pid.Identity) {
		return fmt.Errorf("account already exists: %v",
			a.accountDir(pid.Identity))
	}
'''))
Q('srv disable uses helpers', (ACC, '''	accountNameDisabled := a.accountDirDisabled(pid)
	_, err := os.Stat(accountNameDisabled)
	if err == nil {
		return fmt.Errorf("account already disabled: %v",
			accountNameDisabled)
	}

	accountName := a.accountDir(pid)
	_, err = os.Stat(accountName)
	if err != nil {
		return fmt.Errorf("account doesn't exist: %v",
			accountName)
	}

	return os.Rename(accountName, accountNameDisabled)
''', '''	if a.Disabled(pid) {
		return fmt.Errorf("account already disabled: %x", pid)
	}
	if !a.Enabled(pid) {
		return fmt.Errorf("account doesn't exist: %x", pid)
	}
	return os.Rename(a.accountDir(pid), a.accountDirDisabled(pid))
'''))
Q('srv find lock per read', (ACC, '''	a.Lock()
	fi, err := ioutil.ReadDir(a.root)
	if err != nil {
		a.Unlock()
		return nil, fmt.Errorf("could not find user: %v", err)
	}
	for _, v := range fi {
		dirname := path.Join(a.root, v.Name())
		user, err := inidb.New(path.Join(dirname, UserIdentityFilename), false, 10)
		if err != nil {
			a.Unlock()
			return nil, fmt.Errorf("could not find user: %v", err)
		}
		a.Unlock()
''', '''	a.Lock()
	fi, err := ioutil.ReadDir(a.root)
	a.Unlock()
	if err != nil {
		return nil, fmt.Errorf("could not find user: %v", err)
	}
	for _, v := range fi {
		a.Lock()
		user, err := inidb.New(path.Join(a.root, v.Name(), UserIdentityFilename), false, 10)
		a.Unlock()
		if err != nil {
			return nil, fmt.Errorf("could not find user: %v", err)
		}
'''), (ACC, '''				return id, nil
			}
		}
		a.Lock()
	}
	a.Unlock()
''', '''				return id, nil
			}
		}
	}
'''))
B('srv ack extracted unchecked', 'C01', ('zkserver/zkserver.go', '\t\t\tsc.Lock()\n\t\t\tm := sc.tagMessage[message.Tag]\n\t\t\tsc.Unlock()\n\n\t\t\tz.T(idS, "handleSession: %v got ack tag %v",\n\t\t\t\trids,\n\t\t\t\tmessage.Tag)\n\n\t\t\t// a tag can only be returned once\n\t\t\tif m == nil {\n\t\t\t\treturn fmt.Errorf("acknowledge for unused tag: "+\n\t\t\t\t\t"%v %v", message.Tag, rids)\n\t\t\t}\n\n\t\t\t// sanity\n\t\t\tif m != nil && m.Message.Tag != message.Tag {\n\t\t\t\treturn fmt.Errorf("acknowledge tag doesn\'t "+\n\t\t\t\t\t"match: %v %v %v",\n\t\t\t\t\tm.Message.Tag,\n\t\t\t\t\tmessage.Tag,\n\t\t\t\t\trids)\n\t\t\t}\n\t\t\t// see if we have work to do\n\t\t\tif m != nil && m.Message.Command == rpc.TaggedCmdPush {\n\t\t\t\tfrom := kx.TheirIdentity().([32]byte)\n\t\t\t\t// err is reporting only\n\t\t\t\terr = z.account.Delete(from, m.Identifier)\n\t\t\t\tif err != nil {\n\t\t\t\t\tz.Error(idS,\n\t\t\t\t\t\t"handleSession: %v delete "+\n\t\t\t\t\t\t\t"failed %v %v",\n\t\t\t\t\t\trids,\n\t\t\t\t\t\tm.Identifier,\n\t\t\t\t\t\terr)\n\t\t\t\t}\n\t\t\t}\n\n\t\t\t// mark free\n\t\t\tsc.Lock()\n\t\t\tsc.tagMessage[message.Tag] = nil\n\t\t\tsc.Unlock()\n\n\t\t\t// just push tag for now\n\t\t\terr = sc.tagStack.Push(message.Tag)\n\t\t\tif err != nil {\n\t\t\t\treturn fmt.Errorf("Acknowledge can\'t push tag: %v",\n\t\t\t\t\tmessage.Tag)\n\t\t\t}\n\t\t\tz.T(idS, "handleSession: %v ack tag %v",\n\t\t\t\trids,\n\t\t\t\tmessage.Tag)\n', '\t\t\terr = z.handleAcknowledge(&sc, message)\n\t\t\tif err != nil {\n\t\t\t\treturn err\n\t\t\t}\n'), ('zkserver/zkserver.go', '// handleSession deals with incoming RPC calls.', '// handleAcknowledge frees the tag of a message the client acknowledged.\nfunc (z *ZKS) handleAcknowledge(sc *sessionContext, message rpc.Message) error {\n\tsc.Lock()\n\tm := sc.tagMessage[message.Tag]\n\tsc.Unlock()\n\tif m == nil {\n\t\treturn fmt.Errorf("acknowledge for unused tag: %v %v",\n\t\t\tmessage.Tag, sc.rids)\n\t}\n\tif m.Message.Tag != message.Tag {\n\t\treturn fmt.Errorf("acknowledge tag doesn\'t match: %v %v %v",\n\t\t\tm.Message.Tag, message.Tag, sc.rids)\n\t}\n\tif m.Message.Command == rpc.TaggedCmdPush {\n\t\tfrom := sc.kx.TheirIdentity().([32]byte)\n\t\terr := z.account.Delete(from, m.Identifier)\n\t\tif err != nil {\n\t\t\tz.Error(idS, "handleAcknowledge: %v delete failed %v %v",\n\t\t\t\tsc.rids, m.Identifier, err)\n\t\t}\n\t}\n\n\tsc.Lock()\n\tsc.tagMessage[message.Tag] = nil\n\tsc.Unlock()\n\n\terr := sc.tagStack.Push(message.Tag)\n\tif err != nil {\n\t\treturn fmt.Errorf("Acknowledge can\'t push tag: %v", message.Tag)\n\t}\n\treturn nil\n}\n\n// handleSession deals with incoming RPC calls.'), ('zkserver/zkserver.go', '\t\tif message.Tag >= tagDepth {\n\t\t\treturn fmt.Errorf("invalid tag received %v", message.Tag)\n\t\t}\n', ''), ('zkserver/zkserver.go', 'if tagBitmap[message.Tag] {', 'if tagBitmap[message.Tag%tagDepth] {'), ('zkserver/zkserver.go', 'tagBitmap[message.Tag] = true', 'tagBitmap[message.Tag%tagDepth] = true'), ('zkserver/zkserver.go', 'tagBitmap[message.Tag] = false', 'tagBitmap[message.Tag%tagDepth] = false'))

Q('cli reply kx helper', ('zkclient/push.go', '\t\t// create a new ratchet from idkx\n\t\tr := ratchet.New(rand.Reader)\n\t\tr.MyPrivateKey = &z.id.PrivateKey\n\t\tr.MySigningPublic = &z.id.Public.SigKey\n\t\tr.TheirIdentityPublic = &idkx.Identity.Identity\n\t\tr.TheirSigningPublic = &idkx.Identity.SigKey\n\t\tr.TheirPublicKey = &idkx.Identity.Key\n\n\t\tkxRatchet := new(ratchet.KeyExchange)\n\t\terr = r.FillKeyExchange(kxRatchet)\n\t\tif err != nil {\n\t\t\treturn fmt.Errorf("could not setup ratchet key "+\n\t\t\t\t"exchange: %v", err)\n\t\t}\n\n\t\t// finalize ratchet\n\t\terr = r.CompleteKeyExchange(&idkx.KX, false)\n\t\tif err != nil {\n\t\t\treturn fmt.Errorf("could not complete key exchange: %v",\n\t\t\t\terr)\n\t\t}\n\n', '\t\tr, kxRatchet, err := z.replyKX(&idkx)\n\t\tif err != nil {\n\t\t\treturn err\n\t\t}\n\n'), ('zkclient/push.go', '\t// create a new ratchet from idkx\n\tr := ratchet.New(rand.Reader)\n\tr.MyPrivateKey = &z.id.PrivateKey\n\tr.MySigningPublic = &z.id.Public.SigKey\n\tr.TheirIdentityPublic = &idkx.Identity.Identity\n\tr.TheirSigningPublic = &idkx.Identity.SigKey\n\tr.TheirPublicKey = &idkx.Identity.Key\n\n\tkxRatchet := new(ratchet.KeyExchange)\n\terr = r.FillKeyExchange(kxRatchet)\n\tif err != nil {\n\t\treturn fmt.Errorf("could not setup ratchet kx: %v", err)\n\t}\n\n\t// finalize ratchet\n\terr = r.CompleteKeyExchange(&idkx.KX, false)\n\tif err != nil {\n\t\treturn fmt.Errorf("could not complete kx: %v", err)\n\t}\n\n', '\tr, kxRatchet, err := z.replyKX(&idkx)\n\tif err != nil {\n\t\treturn err\n\t}\n\n'), ('zkclient/push.go', 'func (z *ZKC) step3IDKX(', '// replyKX completes the exchange the other side started and returns the\n// ratchet along with our half.\nfunc (z *ZKC) replyKX(idkx *rpc.IdentityKX) (*ratchet.Ratchet, *ratchet.KeyExchange, error) {\n\tr := ratchet.New(rand.Reader)\n\tr.MyPrivateKey = &z.id.PrivateKey\n\tr.MySigningPublic = &z.id.Public.SigKey\n\tr.TheirIdentityPublic = &idkx.Identity.Identity\n\tr.TheirSigningPublic = &idkx.Identity.SigKey\n\tr.TheirPublicKey = &idkx.Identity.Key\n\n\tkxRatchet := new(ratchet.KeyExchange)\n\tif err := r.FillKeyExchange(kxRatchet); err != nil {\n\t\treturn nil, nil, fmt.Errorf("could not setup ratchet key "+\n\t\t\t"exchange: %v", err)\n\t}\n\tif err := r.CompleteKeyExchange(&idkx.KX, false); err != nil {\n\t\treturn nil, nil, fmt.Errorf("could not complete key exchange: %v",\n\t\t\terr)\n\t}\n\n\treturn r, kxRatchet, nil\n}\n\nfunc (z *ZKC) step3IDKX('))
Q('cli finish ratchet helper', ('zkclient/push.go', '\t\tz.ratchetMtx.Lock()\n\n\t\t// get half ratchet\n\t\tr, err := z.loadRatchet(p.From, true)\n\t\tif err != nil {\n\t\t\tz.ratchetMtx.Unlock()\n\t\t\treturn fmt.Errorf("could not load ratchet: %v", err)\n\t\t}\n\n\t\t// complete idkx\n\t\terr = r.CompleteKeyExchange(&kx.KX, true)\n\t\tif err != nil {\n\t\t\tz.ratchetMtx.Unlock()\n\t\t\treturn fmt.Errorf("could not complete key exchange: %v",\n\t\t\t\terr)\n\t\t}\n\n\t\t// save full ratchet to disk\n\t\terr = z.updateRatchet(r, false)\n\t\tif err != nil {\n\t\t\tz.ratchetMtx.Unlock()\n\t\t\treturn fmt.Errorf("could not save ratchet kx %v", err)\n\t\t}\n\n\t\t// remove half ratchet\n\t\terr = z.removeRatchet(p.From, true)\n\t\tif err != nil {\n\t\t\tz.ratchetMtx.Unlock()\n\t\t\treturn fmt.Errorf("could not remove half ratchet kx %v",\n\t\t\t\terr)\n\t\t}\n\t\tz.ratchetMtx.Unlock()\n\n', '\t\terr = z.finishRatchet(p.From, &kx.KX)\n\t\tif err != nil {\n\t\t\treturn err\n\t\t}\n\n'), ('zkclient/push.go', 'func (z *ZKC) step3IDKX(', '// finishRatchet turns the half ratchet of from into a full one.\nfunc (z *ZKC) finishRatchet(from [32]byte, kx *ratchet.KeyExchange) error {\n\tz.ratchetMtx.Lock()\n\tdefer z.ratchetMtx.Unlock()\n\n\tr, err := z.loadRatchet(from, true)\n\tif err != nil {\n\t\treturn fmt.Errorf("could not load ratchet: %v", err)\n\t}\n\tif err = r.CompleteKeyExchange(kx, true); err != nil {\n\t\treturn fmt.Errorf("could not complete key exchange: %v", err)\n\t}\n\tif err = z.updateRatchet(r, false); err != nil {\n\t\treturn fmt.Errorf("could not save ratchet kx %v", err)\n\t}\n\tif err = z.removeRatchet(from, true); err != nil {\n\t\treturn fmt.Errorf("could not remove half ratchet kx %v", err)\n\t}\n\n\treturn nil\n}\n\nfunc (z *ZKC) step3IDKX('))
Q('cli unseal helper', ('zkclient/push.go', '\tnonce, encrypted, err := blobshare.UnpackNonce(p.Payload)\n\tif err != nil {\n\t\treturn fmt.Errorf("could not unpack KX")\n\t}\n\n\t//\n\t// try decrypting with all blob keys\n\t//\n\n\t// open db\n\tkdb, err := inidb.New(path.Join(z.settings.Root, blobKeysPath), true,\n\t\t10)\n\tif err != nil && !errors.Is(err, inidb.ErrCreated) {\n\t\treturn fmt.Errorf("could not open blobkeys database: %v", err)\n\t}\n\n\t// no need to lock since we are reading only\n\tvar key [32]byte\n\tfor k, v := range kdb.Records("") {\n\t\tkeyb, err := hex.DecodeString(v)\n\t\tif err != nil {\n\t\t\t// should not happen so complain and move on\n\t\t\tz.Error(idZKC, "could not hex decode blobkey: %v", k)\n\t\t\tcontinue\n\t\t}\n\t\tcopy(key[:], keyb)\n\n\t\tdecrypted, err := blobshare.Decrypt(&key, nonce, encrypted)\n\t\tif err != nil {\n\t\t\t// wrong key, moving on\n\t\t\tcontinue\n\t\t}\n\t\tz.Dbg(idZKC, "step 3 (push) got key")\n\n\t\tvar kx rpc.KX\n\t\tbr := bytes.NewReader(decrypted)\n\t\t_, err = unmarshal(br, &kx)\n\t\tif err != nil {\n\t\t\treturn fmt.Errorf("could not unmarshal KX")\n\t\t}\n\n\t\tz.ratchetMtx.Lock()\n\n\t\t// get half ratchet\n\t\tr, err := z.loadRatchet(p.From, true)\n\t\tif err != nil {\n\t\t\tz.ratchetMtx.Unlock()\n\t\t\treturn fmt.Errorf("could not load ratchet: %v", err)\n\t\t}\n\n\t\t// complete idkx\n\t\terr = r.CompleteKeyExchange(&kx.KX, true)\n\t\tif err != nil {\n\t\t\tz.ratchetMtx.Unlock()\n\t\t\treturn fmt.Errorf("could not complete key exchange: %v",\n\t\t\t\terr)\n\t\t}\n\n\t\t// save full ratchet to disk\n\t\terr = z.updateRatchet(r, false)\n\t\tif err != nil {\n\t\t\tz.ratchetMtx.Unlock()\n\t\t\treturn fmt.Errorf("could not save ratchet kx %v", err)\n\t\t}\n\n\t\t// remove half ratchet\n\t\terr = z.removeRatchet(p.From, true)\n\t\tif err != nil {\n\t\t\tz.ratchetMtx.Unlock()\n\t\t\treturn fmt.Errorf("could not remove half ratchet kx %v",\n\t\t\t\terr)\n\t\t}\n\t\tz.ratchetMtx.Unlock()\n\n\t\t// sanity\n\t\tid, err := z.loadIdentity(p.From)\n\t\tif err != nil {\n\t\t\treturn fmt.Errorf("could not obtain identity "+\n\t\t\t\t"record: %v", err)\n\t\t}\n\t\tif !bytes.Equal(p.From[:], id.Identity[:]) {\n\t\t\treturn fmt.Errorf("identities don\'t match")\n\t\t}\n\n\t\terr = z.addressBookAdd(*id)\n\t\tif err != nil {\n\t\t\treturn fmt.Errorf("could not add to address "+\n\t\t\t\t"book: %v", err)\n\t\t}\n\n\t\tz.printKX(id)\n\n\t\tz.Dbg(idZKC, "step 3 (push) idkx complete %v",\n\t\t\thex.EncodeToString(p.From[:]))\n\n\t\treturn nil\n\t}\n\n', '\tnonce, encrypted, err := blobshare.UnpackNonce(p.Payload)\n\tif err != nil {\n\t\treturn fmt.Errorf("could not unpack KX")\n\t}\n\n\tdecrypted, err := z.unsealAny(nonce, encrypted)\n\tif err != nil {\n\t\treturn err\n\t}\n\tif decrypted != nil {\n\t\tz.Dbg(idZKC, "step 3 (push) got key")\n\n\t\tvar kx rpc.KX\n\t\tbr := bytes.NewReader(decrypted)\n\t\t_, err = unmarshal(br, &kx)\n\t\tif err != nil {\n\t\t\treturn fmt.Errorf("could not unmarshal KX")\n\t\t}\n\n\t\tz.ratchetMtx.Lock()\n\n\t\t// get half ratchet\n\t\tr, err := z.loadRatchet(p.From, true)\n\t\tif err != nil {\n\t\t\tz.ratchetMtx.Unlock()\n\t\t\treturn fmt.Errorf("could not load ratchet: %v", err)\n\t\t}\n\n\t\t// complete idkx\n\t\terr = r.CompleteKeyExchange(&kx.KX, true)\n\t\tif err != nil {\n\t\t\tz.ratchetMtx.Unlock()\n\t\t\treturn fmt.Errorf("could not complete key exchange: %v",\n\t\t\t\terr)\n\t\t}\n\n\t\t// save full ratchet to disk\n\t\terr = z.updateRatchet(r, false)\n\t\tif err != nil {\n\t\t\tz.ratchetMtx.Unlock()\n\t\t\treturn fmt.Errorf("could not save ratchet kx %v", err)\n\t\t}\n\n\t\t// remove half ratchet\n\t\terr = z.removeRatchet(p.From, true)\n\t\tif err != nil {\n\t\t\tz.ratchetMtx.Unlock()\n\t\t\treturn fmt.Errorf("could not remove half ratchet kx %v",\n\t\t\t\terr)\n\t\t}\n\t\tz.ratchetMtx.Unlock()\n\n\t\t// sanity\n\t\tid, err := z.loadIdentity(p.From)\n\t\tif err != nil {\n\t\t\treturn fmt.Errorf("could not obtain identity "+\n\t\t\t\t"record: %v", err)\n\t\t}\n\t\tif !bytes.Equal(p.From[:], id.Identity[:]) {\n\t\t\treturn fmt.Errorf("identities don\'t match")\n\t\t}\n\n\t\terr = z.addressBookAdd(*id)\n\t\tif err != nil {\n\t\t\treturn fmt.Errorf("could not add to address "+\n\t\t\t\t"book: %v", err)\n\t\t}\n\n\t\tz.printKX(id)\n\n\t\tz.Dbg(idZKC, "step 3 (push) idkx complete %v",\n\t\t\thex.EncodeToString(p.From[:]))\n\n\t\treturn nil\n\t}\n\n'), ('zkclient/push.go', 'func (z *ZKC) step3IDKX(', '// unsealAny tries all saved blob keys, it returns nil if none fits.\nfunc (z *ZKC) unsealAny(nonce *[24]byte, encrypted []byte) ([]byte, error) {\n\tkdb, err := inidb.New(path.Join(z.settings.Root, blobKeysPath), true,\n\t\t10)\n\tif err != nil && !errors.Is(err, inidb.ErrCreated) {\n\t\treturn nil, fmt.Errorf("could not open blobkeys database: %v", err)\n\t}\n\n\tfor k, v := range kdb.Records("") {\n\t\tkeyb, err := hex.DecodeString(v)\n\t\tif err != nil {\n\t\t\t// should not happen so complain and move on\n\t\t\tz.Error(idZKC, "could not hex decode blobkey: %v", k)\n\t\t\tcontinue\n\t\t}\n\t\tvar key [32]byte\n\t\tcopy(key[:], keyb)\n\n\t\tdecrypted, err := blobshare.Decrypt(&key, nonce, encrypted)\n\t\tif err == nil {\n\t\t\treturn decrypted, nil\n\t\t}\n\t}\n\n\treturn nil, nil\n}\n\nfunc (z *ZKC) step3IDKX('))
Q('cli admin group helper', ('zkclient/push.go', '\tgroup, found := z.groups[gk.NewGroupList.Name]\n\tif !found {\n\t\treturn fmt.Errorf("group chat not found during kick/part: %v",\n\t\t\tgk.NewGroupList.Name)\n\t}\n\n\t// sanity\n\tif len(group.Members) == 0 {\n\t\treturn fmt.Errorf("handleGroupKick: group chat corrupt")\n\t}\n\n\t// make sure we got this from list administrator\n\tif !bytes.Equal(group.Members[0][:], p.From[:]) {\n\t\treturn fmt.Errorf("kick/part was not sent by group chat " +\n\t\t\t"administrator")\n\t}\n\n', '\tif _, err := z._adminGroup(gk.NewGroupList.Name, p.From[:]); err != nil {\n\t\treturn err\n\t}\n\n'), ('zkclient/push.go', '\tgroup, found := z.groups[gk.Name]\n\tif !found {\n\t\treturn fmt.Errorf("group chat not found: %v", gk.Name)\n\t}\n\n\tif len(group.Members) == 0 {\n\t\treturn fmt.Errorf("handleGroupKill: group chat corrupt")\n\t}\n\n\tif !bytes.Equal(group.Members[0][:], p.From[:]) {\n\t\treturn fmt.Errorf("spoofed group chat kill command")\n\t}\n\n', '\tif _, err := z._adminGroup(gk.Name, p.From[:]); err != nil {\n\t\treturn err\n\t}\n\n'), ('zkclient/push.go', '\tgc, found := z.groups[gp.Name]\n\tif !found {\n\t\treturn fmt.Errorf("group chat not found during part: %v",\n\t\t\tgp.Name)\n\t}\n\n\tif len(gc.Members) == 0 {\n\t\treturn fmt.Errorf("handleGroupPart: group chat corrupt")\n\t}\n\n\t// make sure we got this from list administrator\n\tif !bytes.Equal(gc.Members[0][:], z.id.Public.Identity[:]) {\n\t\treturn fmt.Errorf("part may only be sent to group chat " +\n\t\t\t"administrator")\n\t}\n\n', '\tgc, err := z._adminGroup(gp.Name, z.id.Public.Identity[:])\n\tif err != nil {\n\t\treturn err\n\t}\n\n'), ('zkclient/push.go', 'func (z *ZKC) handleGroupPart(', '// _adminGroup returns the group if id is its administrator.\nfunc (z *ZKC) _adminGroup(name string, id []byte) (*rpc.GroupList, error) {\n\tgc, found := z.groups[name]\n\tswitch {\n\tcase !found:\n\t\treturn nil, fmt.Errorf("group chat not found: %v", name)\n\tcase len(gc.Members) == 0:\n\t\treturn nil, fmt.Errorf("group chat corrupt: %v", name)\n\tcase !bytes.Equal(gc.Members[0][:], id):\n\t\treturn nil, fmt.Errorf("not group chat administrator: %v", name)\n\t}\n\treturn &gc, nil\n}\n\nfunc (z *ZKC) handleGroupPart('))
Q('cli part found first', ('zkclient/push.go', '\tvar nick string\n\tfor i := 1; i < len(gc.Members); i++ {\n\t\tif !bytes.Equal(gc.Members[i][:], p.From[:]) {\n\t\t\tcontinue\n\t\t}\n\n\t\t// remove from member list\n\t\tngc := rpc.GroupList{\n\t\t\tName:       gc.Name,\n\t\t\tGeneration: gc.Generation + 1,\n\t\t\tTimestamp:  time.Now().Unix(),\n\t\t\tMembers:    append(gc.Members[:i:i], gc.Members[i+1:]...),\n\t\t}\n\n\t\t// send new list to everyone including partee\n\t\tfor j := 1; j < len(gc.Members); j++ {\n\t\t\tz.scheduleCRPC(true, &gc.Members[j], rpc.GroupKick{\n\t\t\t\tMember:       p.From,\n\t\t\t\tReason:       gp.Reason,\n\t\t\t\tParted:       true,\n\t\t\t\tNewGroupList: ngc,\n\t\t\t})\n\t\t}\n\n\t\t// set new group in memory\n\t\tz.groups[gp.Name] = ngc\n\n\t\t// save to disk\n\t\terr := z._gcSaveDisk(gp.Name)\n\t\tif err != nil {\n\t\t\treturn fmt.Errorf("could not save group chat to disk %v: %v",\n\t\t\t\tgp.Name, err)\n\t\t}\n\n\t\tid, err := z.ab.FindIdentity(p.From)\n\t\tif err != nil {\n\t\t\treturn fmt.Errorf("received join from unknown identity: %v",\n\t\t\t\thex.EncodeToString(p.From[:]))\n\t\t}\n\t\tz.PrintfT(0, "%v left group chat %v: %v",\n\t\t\tz.settings.PmColor+id.Nick+RESET,\n\t\t\tz.settings.GcColor+gp.Name+RESET,\n\t\t\tgp.Reason)\n\n\t\t// echo on conversation window\n\t\tfor k, v := range z.conversation {\n\t\t\tif v.id.Nick == gp.Name {\n\t\t\t\tz.PrintfT(k, "%v left group chat: %v",\n\t\t\t\t\tz.settings.PmColor+nick+RESET,\n\t\t\t\t\tgp.Reason)\n\t\t\t\tbreak\n\t\t\t}\n\t\t}\n\n\t\treturn nil\n\t}\n\n\treturn fmt.Errorf("not part of group chat: %v", nick)\n}\n\n', '\tpos := -1\n\tfor i, m := range gc.Members {\n\t\tif i > 0 && bytes.Equal(m[:], p.From[:]) {\n\t\t\tpos = i\n\t\t\tbreak\n\t\t}\n\t}\n\tif pos == -1 {\n\t\treturn fmt.Errorf("not part of group chat: %v", gp.Name)\n\t}\n\n\t// remove from member list\n\tngc := rpc.GroupList{\n\t\tName:       gc.Name,\n\t\tGeneration: gc.Generation + 1,\n\t\tTimestamp:  time.Now().Unix(),\n\t}\n\tfor i, m := range gc.Members {\n\t\tif i != pos {\n\t\t\tngc.Members = append(ngc.Members, m)\n\t\t}\n\t}\n\n\t// send new list to everyone including partee\n\tkick := rpc.GroupKick{\n\t\tMember:       p.From,\n\t\tReason:       gp.Reason,\n\t\tParted:       true,\n\t\tNewGroupList: ngc,\n\t}\n\tfor j := range gc.Members[1:] {\n\t\tz.scheduleCRPC(true, &gc.Members[j+1], kick)\n\t}\n\n\t// set new group in memory\n\tz.groups[gp.Name] = ngc\n\n\t// save to disk\n\terr := z._gcSaveDisk(gp.Name)\n\tif err != nil {\n\t\treturn fmt.Errorf("could not save group chat to disk %v: %v",\n\t\t\tgp.Name, err)\n\t}\n\n\tid, err := z.ab.FindIdentity(p.From)\n\tif err != nil {\n\t\treturn fmt.Errorf("received join from unknown identity: %v",\n\t\t\thex.EncodeToString(p.From[:]))\n\t}\n\tz.PrintfT(0, "%v left group chat %v: %v",\n\t\tz.settings.PmColor+id.Nick+RESET,\n\t\tz.settings.GcColor+gp.Name+RESET,\n\t\tgp.Reason)\n\n\t// echo on conversation window\n\tfor k, v := range z.conversation {\n\t\tif v.id.Nick == gp.Name {\n\t\t\tz.PrintfT(k, "%v left group chat: %v",\n\t\t\t\tz.settings.PmColor+RESET,\n\t\t\t\tgp.Reason)\n\t\t\tbreak\n\t\t}\n\t}\n\n\treturn nil\n}\n\n'))
Q('cli echo helper', ('zkclient/push.go', '\t// echo on conversation window\n\tfor k, v := range z.conversation {\n\t\tif v.id.Nick == gj.Name {\n\t\t\tz.PrintfTS(k, time.Unix(p.Received, 0),\n\t\t\t\t"%v joined group chat",\n\t\t\t\tid.Nick)\n\t\t\tbreak\n\t\t}\n\t}\n\n', '\tz._echoGroup(gj.Name, time.Unix(p.Received, 0), "%v joined group chat",\n\t\tid.Nick)\n\n'), ('zkclient/push.go', '\t// echo on conversation window\n\tfor k, v := range z.conversation {\n\t\tif v.id.Nick == gk.Name {\n\t\t\tz.PrintfTS(k, time.Unix(p.Received, 0),\n\t\t\t\tREDBOLD+"group chat killed"+RESET)\n\t\t\tbreak\n\t\t}\n\t}\n\n', '\tz._echoGroup(gk.Name, time.Unix(p.Received, 0), REDBOLD+"group chat killed"+RESET)\n\n'), ('zkclient/push.go', 'func (z *ZKC) handleGroupPart(', '// _echoGroup prints on the window of a group, if there is one.\nfunc (z *ZKC) _echoGroup(name string, ts time.Time, format string,\n\targs ...interface{}) {\n\n\tfor k, v := range z.conversation {\n\t\tif v.id.Nick == name {\n\t\t\tz.PrintfTS(k, ts, format, args...)\n\t\t\treturn\n\t\t}\n\t}\n}\n\nfunc (z *ZKC) handleGroupPart('))
Q('cli join store helper', ('zkclient/push.go', '\t// send everyone the new group list, skip [0], it is us\n\tgc.Generation++\n\tz.groups[gj.Name] = gc\n\t// save to disk\n\terr = z._gcSaveDisk(gj.Name)\n\tif err != nil {\n\t\tz.groups[gj.Name] = ogc // unwind\n\t\treturn fmt.Errorf("could not save group chat %v: %v", gj.Name, err)\n\t}\n\n\t// send to everyone\n\tfor i := 1; i < len(gc.Members); i++ {\n\t\tz.scheduleCRPC(true, &gc.Members[i], gc)\n\t}\n\n', '\t// send everyone the new group list, skip [0], it is us\n\tgc.Generation++\n\terr = z._replaceGroup(gc, ogc)\n\tif err != nil {\n\t\treturn err\n\t}\n\tfor _, m := range gc.Members[1:] {\n\t\tm := m\n\t\tz.scheduleCRPC(true, &m, gc)\n\t}\n\n'), ('zkclient/push.go', 'func (z *ZKC) handleGroupPart(', '// _replaceGroup sets and saves a group, the old one remains on failure.\nfunc (z *ZKC) _replaceGroup(gc, old rpc.GroupList) error {\n\tz.groups[gc.Name] = gc\n\tif err := z._gcSaveDisk(gc.Name); err != nil {\n\t\tz.groups[gc.Name] = old\n\t\treturn fmt.Errorf("could not save group chat %v: %v", gc.Name, err)\n\t}\n\treturn nil\n}\n\nfunc (z *ZKC) handleGroupPart('))
Q('cli update list switch', ('zkclient/zkclient.go', '\tif len(group.Members) == 0 {\n\t\treturn fmt.Errorf("partial group")\n\t}\n\tif !bytes.Equal(group.Members[0][:], id[:]) {\n\t\treturn errNotAdmin\n\t}\n\n\t// the originator remains the administrator\n\tif len(gl.Members) == 0 || !bytes.Equal(gl.Members[0][:], id[:]) {\n\t\treturn fmt.Errorf("invalid group chat administrator: %v",\n\t\t\tgl.Name)\n\t}\n\n', '\tswitch {\n\tcase len(group.Members) == 0:\n\t\treturn fmt.Errorf("partial group")\n\tcase group.Members[0] != id:\n\t\treturn errNotAdmin\n\tcase len(gl.Members) == 0, gl.Members[0] != id:\n\t\t// the originator remains the administrator\n\t\treturn fmt.Errorf("invalid group chat administrator: %v",\n\t\t\tgl.Name)\n\t}\n\n'))
Q('cli kick without helper', ('zkclient/groupchat.go', '\tngc.Members = make([][zkidentity.IdentitySize]byte, 0, len(gc.Members))\n\t// warn if user is not in kicklist but do it anyway\n\tfound = false\n\tfor _, m := range gc.Members {\n\t\tif !bytes.Equal(m[:], id.Identity[:]) {\n\t\t\tngc.Members = append(ngc.Members, m)\n\t\t} else {\n\t\t\tfound = true\n\t\t}\n\t}\n', '\t// warn if user is not in kicklist but do it anyway\n\tngc.Members, found = without(gc.Members, id.Identity)\n'), ('zkclient/groupchat.go', 'func (z *ZKC) gcKick(', '// without returns members less id and whether id was one of them.\nfunc without(members [][zkidentity.IdentitySize]byte,\n\tid [zkidentity.IdentitySize]byte) ([][zkidentity.IdentitySize]byte, bool) {\n\n\tfound := false\n\tleft := make([][zkidentity.IdentitySize]byte, 0, len(members))\n\tfor i := range members {\n\t\tif members[i] == id {\n\t\t\tfound = true\n\t\t\tcontinue\n\t\t}\n\t\tleft = append(left, members[i])\n\t}\n\treturn left, found\n}\n\nfunc (z *ZKC) gcKick('))
Q('cli kick callback method', ('zkclient/groupchat.go', '\tgot := 0                    // acks seen\n\twant := len(gc.Members) - 1 // acks required\n\tf := func() {\n\t\tz.Lock()\n\t\tdefer z.Unlock()\n\n\t\t// only do stuff on last ack\n\t\tgot++\n\t\tif got != want {\n\t\t\treturn\n\t\t}\n\n\t\tz.Dbg(idZKC, "gcKick: callback")\n\n\t\t// find conversation\n\t\tvar (\n\t\t\tk = -1\n\t\t\tv *conversation\n\t\t)\n\t\tfor k, v = range z.conversation {\n\t\t\tif v.id.Nick == args[2] {\n\t\t\t\tbreak\n\t\t\t}\n\t\t}\n\n\t\t// make sure group has not vanished\n\t\t_, found := z.groups[args[2]]\n\t\tif !found {\n\t\t\tz.PrintfT(0, REDBOLD+\n\t\t\t\t"group no longer exists: %v"+\n\t\t\t\tRESET, args[2], err)\n\t\t\treturn\n\t\t}\n\n\t\t// set new group in memory\n\t\tz.groups[args[2]] = ngc\n\n\t\t// save to disk\n\t\terr = z._gcSaveDisk(args[2])\n\t\tif err != nil {\n\t\t\tem := fmt.Sprintf(REDBOLD+\n\t\t\t\t"could not save group to disk %v: %v"+\n\t\t\t\tRESET, args[2], err)\n\t\t\tz.PrintfT(0, "%v", em)\n\t\t\t// echo on conversation window\n\t\t\tif k > 0 {\n\t\t\t\tz.PrintfT(k, "%v", em)\n\t\t\t}\n\t\t\treturn\n\t\t}\n\n\t\tkm := fmt.Sprintf("%v was kicked of group chat %v: %v",\n\t\t\tz.settings.PmColor+args[3]+RESET,\n\t\t\tz.settings.GcColor+args[2]+RESET,\n\t\t\treason)\n\t\tz.PrintfT(0, "%v", km)\n\t\t// echo on conversation window\n\t\tif k > 0 {\n\t\t\tz.PrintfT(k, "%v", km)\n\t\t}\n\t}\n\n', '\tf := z.kickDone(args, ngc, reason, len(gc.Members)-1)\n\n'), ('zkclient/groupchat.go', 'func (z *ZKC) gcKick(', '// kickDone returns the callback that installs the new list once all want\n// members have acknowledged it.\nfunc (z *ZKC) kickDone(args []string, ngc rpc.GroupList, reason string, want int) func() {\n\tgot := 0                    // acks seen\n\treturn func() {\n\t\tz.Lock()\n\t\tdefer z.Unlock()\n\n\t\t// only do stuff on last ack\n\t\tgot++\n\t\tif got != want {\n\t\t\treturn\n\t\t}\n\n\t\tz.Dbg(idZKC, "gcKick: callback")\n\n\t\t// find conversation\n\t\tvar (\n\t\t\tk = -1\n\t\t\tv *conversation\n\t\t)\n\t\tfor k, v = range z.conversation {\n\t\t\tif v.id.Nick == args[2] {\n\t\t\t\tbreak\n\t\t\t}\n\t\t}\n\n\t\t// make sure group has not vanished\n\t\t_, found := z.groups[args[2]]\n\t\tif !found {\n\t\t\tz.PrintfT(0, REDBOLD+\n\t\t\t\t"group no longer exists: %v"+\n\t\t\t\tRESET, args[2])\n\t\t\treturn\n\t\t}\n\n\t\t// set new group in memory\n\t\tz.groups[args[2]] = ngc\n\n\t\t// save to disk\n\t\terr := z._gcSaveDisk(args[2])\n\t\tif err != nil {\n\t\t\tem := fmt.Sprintf(REDBOLD+\n\t\t\t\t"could not save group to disk %v: %v"+\n\t\t\t\tRESET, args[2], err)\n\t\t\tz.PrintfT(0, "%v", em)\n\t\t\t// echo on conversation window\n\t\t\tif k > 0 {\n\t\t\t\tz.PrintfT(k, "%v", em)\n\t\t\t}\n\t\t\treturn\n\t\t}\n\n\t\tkm := fmt.Sprintf("%v was kicked of group chat %v: %v",\n\t\t\tz.settings.PmColor+args[3]+RESET,\n\t\t\tz.settings.GcColor+args[2]+RESET,\n\t\t\treason)\n\t\tz.PrintfT(0, "%v", km)\n\t\t// echo on conversation window\n\t\tif k > 0 {\n\t\t\tz.PrintfT(k, "%v", km)\n\t\t}\n\t}\n}\n\nfunc (z *ZKC) gcKick('))
Q('cli join accept helper', ('zkclient/groupchat.go', '\t// send RPC\n\tz.scheduleCRPC(true, &from, rpc.GroupJoin{\n\t\tName:  args[2],\n\t\tToken: token,\n\t})\n\n', '\tz.acceptInvite(from, args[2], token)\n\n'), ('zkclient/groupchat.go', 'func (z *ZKC) gcJoin(', '// acceptInvite tells the administrator that we are joining.\nfunc (z *ZKC) acceptInvite(admin [zkidentity.IdentitySize]byte, group string, token uint64) {\n\tgj := rpc.GroupJoin{Name: group}\n\tgj.Token = token\n\tz.scheduleCRPC(true, &admin, gj)\n}\n\nfunc (z *ZKC) gcJoin('))
Q('cli invite allowed helper', ('zkclient/groupchat.go', '\tg, found := z.groups[args[2]]\n\tif !found {\n\t\treturn fmt.Errorf("group chat not found: %v", args[2])\n\t}\n\tif len(g.Members) == 0 {\n\t\treturn fmt.Errorf("group chat %v has no administrator", args[2])\n\t}\n\tif !bytes.Equal(g.Members[0][:], z.id.Public.Identity[:]) {\n\t\treturn fmt.Errorf("must be administrator to invite to: %v",\n\t\t\targs[2])\n\t}\n\n\t// make sure id isn\'t in group already\n\tfor _, v := range g.Members {\n\t\tif bytes.Equal(v[:], id.Identity[:]) {\n\t\t\treturn fmt.Errorf("already a member: %v", args[3])\n\t\t}\n\t}\n\n', '\tg, err := z._mayInvite(args[2], id.Identity)\n\tif err != nil {\n\t\treturn err\n\t}\n\n'), ('zkclient/groupchat.go', 'func (z *ZKC) gcInvite(', '// _mayInvite returns the group if we can invite id to it.\nfunc (z *ZKC) _mayInvite(group string, id [zkidentity.IdentitySize]byte) (rpc.GroupList, error) {\n\tg, found := z.groups[group]\n\tif !found {\n\t\treturn g, fmt.Errorf("group chat not found: %v", group)\n\t}\n\tif len(g.Members) == 0 || g.Members[0] != z.id.Public.Identity {\n\t\treturn g, fmt.Errorf("must be administrator to invite to: %v",\n\t\t\tgroup)\n\t}\n\tfor i := len(g.Members) - 1; i >= 0; i-- {\n\t\tif g.Members[i] == id {\n\t\t\treturn g, fmt.Errorf("already a member: %x", id)\n\t\t}\n\t}\n\treturn g, nil\n}\n\nfunc (z *ZKC) gcInvite('))
Q('cli append spool helper', ('zkclient/chunk.go', '\t// open spool\n\tfs, err := os.OpenFile(spool, os.O_WRONLY|os.O_APPEND, 0600)\n\tif err != nil {\n\t\treturn err\n\t}\n\n\t// validate offset\n\tfi, err := fs.Stat()\n\tif err != nil {\n\t\tfs.Close()\n\t\treturn err\n\t}\n\tif fi.Size() != int64(c.Offset) {\n\t\tfs.Close()\n\t\treturn fmt.Errorf("unexpected offset got %v wanted %v",\n\t\t\tfi.Size(), c.Offset)\n\t}\n\n\t// don\'t exceed what was announced\n\tif uint64(len(c.Payload)) > cn.Size ||\n\t\tc.Offset > cn.Size-uint64(len(c.Payload)) {\n\t\tfs.Close()\n\t\treturn fmt.Errorf("transfer exceeds announced size: %v", cn.Size)\n\t}\n\n\t// write payload\n\t_, err = fs.Write(c.Payload)\n\tif err != nil {\n\t\tfs.Close()\n\t\treturn err\n\t}\n\n\t// update fi\n\tfi, err = fs.Stat()\n\tif err != nil {\n\t\tfs.Close()\n\t\treturn err\n\t}\n\tfs.Close() // windows\n\n', '\tsize, err := appendSpool(spool, c, cn.Size)\n\tif err != nil {\n\t\treturn err\n\t}\n\n'), ('zkclient/chunk.go', '\tif fi.Size() == int64(cn.Size) {\n', '\tif size == int64(cn.Size) {\n'), ('zkclient/chunk.go', 'func (z *ZKC) doHandleChunk(', '// appendSpool adds a chunk to the spool file and returns the new size.\nfunc appendSpool(spool string, c rpc.Chunk, max uint64) (int64, error) {\n\tfs, err := os.OpenFile(spool, os.O_WRONLY|os.O_APPEND, 0600)\n\tif err != nil {\n\t\treturn 0, err\n\t}\n\tdefer fs.Close()\n\n\tfi, err := fs.Stat()\n\tif err != nil {\n\t\treturn 0, err\n\t}\n\tif fi.Size() != int64(c.Offset) {\n\t\treturn 0, fmt.Errorf("unexpected offset got %v wanted %v",\n\t\t\tfi.Size(), c.Offset)\n\t}\n\tn := uint64(len(c.Payload))\n\tif n > max || c.Offset > max-n {\n\t\treturn 0, fmt.Errorf("transfer exceeds announced size: %v", max)\n\t}\n\n\tif _, err = fs.Write(c.Payload); err != nil {\n\t\treturn 0, err\n\t}\n\tif fi, err = fs.Stat(); err != nil {\n\t\treturn 0, err\n\t}\n\treturn fi.Size(), nil\n}\n\nfunc (z *ZKC) doHandleChunk('))
Q('cli descriptor helper', ('zkclient/chunk.go', '\t// obtain chunk information\n\tf, err := os.Open(desc)\n\tif err != nil {\n\t\treturn err\n\t}\n\tdefer f.Close()\n\n\td := xdr.NewDecoder(f)\n\tvar cn rpc.ChunkNew\n\t_, err = d.Decode(&cn)\n\tif err != nil {\n\t\treturn err\n\t}\n\n', '\t// obtain chunk information\n\tcn, err := readDescriptor(desc)\n\tif err != nil {\n\t\treturn err\n\t}\n\n'), ('zkclient/chunk.go', 'func (z *ZKC) doHandleChunk(', 'func readDescriptor(filename string) (cn rpc.ChunkNew, err error) {\n\tf, err := os.Open(filename)\n\tif err != nil {\n\t\treturn cn, err\n\t}\n\tdefer f.Close()\n\n\t_, err = xdr.Unmarshal(f, &cn)\n\treturn cn, err\n}\n\nfunc (z *ZKC) doHandleChunk('))
Q('cli contact dir helper', ('zkclient/identity.go', '\tids := hex.EncodeToString(id[:])\n\tfullPath := path.Join(z.settings.Root, inboundDir, ids)\n\n\treturn os.Remove(path.Join(fullPath, rf))', '\treturn os.Remove(path.Join(z.contactDir(id), rf))'), ('zkclient/identity.go', '\tids := hex.EncodeToString(id[:])\n\tfullPath := path.Join(z.settings.Root, inboundDir, ids)\n\n\t// read ratchet from disk', '\tids := hex.EncodeToString(id[:])\n\tfullPath := z.contactDir(id)\n\n\t// read ratchet from disk'), ('zkclient/identity.go', '\tids := hex.EncodeToString(r.TheirIdentityPublic[:])\n\tfullPath := path.Join(z.settings.Root, inboundDir, ids)\n', '\tfullPath := z.contactDir(*r.TheirIdentityPublic)\n'), ('zkclient/identity.go', '\tids := hex.EncodeToString(id.Identity[:])\n\tfullPath := path.Join(z.settings.Root, inboundDir, ids)\n', '\tfullPath := z.contactDir(id.Identity)\n'), ('zkclient/identity.go', '\tids := hex.EncodeToString(id[:])\n\n\tfullPath := path.Join(z.settings.Root, inboundDir, ids)\n\tfilename := path.Join(fullPath, identityFilename)\n', '\tfilename := path.Join(z.contactDir(id), identityFilename)\n'), ('zkclient/identity.go', '// identityExists checks', '// contactDir returns the directory where we keep all we know of id.\nfunc (z *ZKC) contactDir(id [zkidentity.IdentitySize]byte) string {\n\treturn path.Join(z.settings.Root, inboundDir, hex.EncodeToString(id[:]))\n}\n\n// identityExists checks'))
Q('cli update ratchet writeFile', ('zkclient/identity.go', '\tf, err := ioutil.TempFile(fullPath, rf)\n\tif err != nil {\n\t\treturn fmt.Errorf("could not create ratchet file: %v", err)\n\t}\n\t// we can\'t defer f.Close() here because of windows\n\n\t_, err = xdr.Marshal(f, state)\n\tif err != nil {\n\t\tf.Close()\n\t\treturn fmt.Errorf("could not marshal ratchet")\n\t}\n\terr = f.Sync()\n\tif err != nil {\n\t\tf.Close()\n\t\treturn fmt.Errorf("could not sync ratchet file: %v", err)\n\t}\n\terr = f.Close()\n\tif err != nil {\n\t\treturn fmt.Errorf("could not close ratchet file: %v", err)\n\t}\n\n\t// rename tempfile to actual file\n\tfilename := path.Join(fullPath, rf)\n\terr = os.Rename(f.Name(), filename)\n\tif err != nil {\n\t\treturn fmt.Errorf("could not rename ratchet file: %v", err)\n\t}\n\n\treturn nil\n}\n\n', '\tvar bb bytes.Buffer\n\t_, err := xdr.Marshal(&bb, state)\n\tif err != nil {\n\t\treturn fmt.Errorf("could not marshal ratchet")\n\t}\n\terr = writeFile(fullPath, path.Join(fullPath, rf), bb.Bytes())\n\tif err != nil {\n\t\treturn fmt.Errorf("could not save ratchet file: %v", err)\n\t}\n\n\treturn nil\n}\n\n'))
Q('cli identity exists loop', ('zkclient/identity.go', '\t_, err := os.Stat(path.Join(z.settings.Root, inboundDir,\n\t\thex.EncodeToString(id[:]), identityFilename))\n\tif err == nil {\n\t\tids := hex.EncodeToString(id[:])\n\t\tfullPath := path.Join(z.settings.Root, inboundDir, ids)\n\t\t_, err1 := os.Stat(path.Join(fullPath, ratchetFilename))\n\t\t_, err2 := os.Stat(path.Join(fullPath, halfRatchetFilename))\n\t\tif err1 == nil || err2 == nil {\n\t\t\treturn true\n\t\t}\n\n\t\t// this happens during reset condiftion\n\t\tz.Dbg(idZKC, "identityExists: reset condition")\n\t\treturn false\n\t}\n\n\treturn false\n}\n\n', '\tfullPath := path.Join(z.settings.Root, inboundDir,\n\t\thex.EncodeToString(id[:]))\n\texists := func(name string) bool {\n\t\t_, err := os.Stat(path.Join(fullPath, name))\n\t\treturn err == nil\n\t}\n\tif !exists(identityFilename) {\n\t\treturn false\n\t}\n\tfor _, name := range []string{ratchetFilename, halfRatchetFilename} {\n\t\tif exists(name) {\n\t\t\treturn true\n\t\t}\n\t}\n\n\t// this happens during reset condiftion\n\tz.Dbg(idZKC, "identityExists: reset condition")\n\treturn false\n}\n\n'))
Q('cli write file early', ('zkclient/identity.go', '\t_, err = f.Write(data)\n\tif err == nil {\n\t\terr = f.Sync()\n\t}\n\terr2 := f.Close()\n\tif err == nil {\n\t\terr = err2\n\t}\n\tif err == nil {\n\t\terr = os.Rename(f.Name(), filename)\n\t}\n\tif err != nil {\n\t\tos.Remove(f.Name())\n\t\treturn err\n\t}\n\n\treturn nil\n}\n', '\tdefer os.Remove(f.Name()) // does nothing once renamed\n\tif _, err = f.Write(data); err != nil {\n\t\tf.Close()\n\t\treturn err\n\t}\n\tif err = f.Sync(); err != nil {\n\t\tf.Close()\n\t\treturn err\n\t}\n\tif err = f.Close(); err != nil {\n\t\treturn err\n\t}\n\treturn os.Rename(f.Name(), filename)\n}\n'))
Q('cli ack extracted', ('zkclient/zkclient.go', '\t\t\tz.Lock()\n\t\t\tif message.Tag >= uint32(len(z.tagCallback)) {\n\t\t\t\texitError = fmt.Errorf("Acknowledge "+\n\t\t\t\t\t"invalid tag: %v", message.Tag)\n\t\t\t\tz.Unlock()\n\t\t\t\treturn\n\t\t\t}\n\t\t\tc := z.tagCallback[message.Tag]\n\t\t\tz.tagCallback[message.Tag] = nil\n\t\t\tz.Unlock()\n\n\t\t\t// push tag\n\t\t\terr = z.tagStack.Push(message.Tag)\n\t\t\tif err != nil {\n\t\t\t\texitError = fmt.Errorf("Push "+\n\t\t\t\t\t"invalid tag: %v", message.Tag)\n\t\t\t\treturn\n\t\t\t}\n\n\t\t\t// print error if we got one\n\t\t\tif a.Error != "" {\n\t\t\t\tz.PrintfT(0, REDBOLD+"cache error: %v"+RESET,\n\t\t\t\t\ta.Error)\n\t\t\t}\n\n\t\t\tif c != nil && a.ErrorCode == rpc.ErrorCodeUserDisabled {\n\t\t\t\t// Handle user disabled special because a\n\t\t\t\t// callback to deal with it would have to be\n\t\t\t\t// rigged all over the code. This may need to\n\t\t\t\t// be reconsidred.\n\t\t\t\tgo z.handleDisabledUser(c.to)\n\t\t\t}\n\n\t\t\t// handle callback\n\t\t\tif c != nil && c.callback != nil {\n\t\t\t\tz.Dbg(idZKC, "ack tag %v callback", message.Tag)\n\t\t\t\tgo c.callback()\n\t\t\t}\n\n', '\t\t\terr = z.handleAcknowledge(message, a)\n\t\t\tif err != nil {\n\t\t\t\texitError = err\n\t\t\t\treturn\n\t\t\t}\n\n'), ('zkclient/zkclient.go', '// handleRPC deals with', '// handleAcknowledge frees a tag and calls back whoever waits for it.\nfunc (z *ZKC) handleAcknowledge(message rpc.Message, a rpc.Acknowledge) error {\n\tz.Lock()\n\tif message.Tag >= uint32(len(z.tagCallback)) {\n\t\tz.Unlock()\n\t\treturn fmt.Errorf("Acknowledge invalid tag: %v", message.Tag)\n\t}\n\tc := z.tagCallback[message.Tag]\n\tz.tagCallback[message.Tag] = nil\n\tz.Unlock()\n\n\t// push tag\n\terr := z.tagStack.Push(message.Tag)\n\tif err != nil {\n\t\treturn fmt.Errorf("Push invalid tag: %v", message.Tag)\n\t}\n\n\t// print error if we got one\n\tif a.Error != "" {\n\t\tz.PrintfT(0, REDBOLD+"cache error: %v"+RESET, a.Error)\n\t}\n\tif c == nil {\n\t\treturn nil\n\t}\n\n\tif a.ErrorCode == rpc.ErrorCodeUserDisabled {\n\t\tgo z.handleDisabledUser(c.to)\n\t}\n\tif c.callback != nil {\n\t\tz.Dbg(idZKC, "ack tag %v callback", message.Tag)\n\t\tgo c.callback()\n\t}\n\n\treturn nil\n}\n\n// handleRPC deals with'))
Q('cli find reply extracted', ('zkclient/zkclient.go', '\t\t\tvar pending bool\n\t\t\tif r.Nick == "" {\n\t\t\t\tz.PrintfT(0, "Server did not return nick")\n\t\t\t} else {\n\t\t\t\tz.pendingIdentitiesMutex.Lock()\n\t\t\t\tpending = z.pendingIdentities[r.Nick] != nil\n\t\t\t\tdelete(z.pendingIdentities, r.Nick)\n\t\t\t\tz.pendingIdentitiesMutex.Unlock()\n\t\t\t}\n\n\t\t\terr = z.tagStack.Push(message.Tag)\n\t\t\tif err != nil {\n\t\t\t\texitError = fmt.Errorf("IdentityFindReply "+\n\t\t\t\t\t"invalid tag: %v", message.Tag)\n\t\t\t\treturn\n\t\t\t}\n\n\t\t\tif r.Error != "" {\n\t\t\t\t// Server error is verbose so just print it\n\t\t\t\tz.PrintfT(0, "%v", r.Error)\n\t\t\t} else {\n\t\t\t\t// we only kx with who we asked for\n\t\t\t\tswitch {\n\t\t\t\tcase !pending || r.Identity.Nick != r.Nick:\n\t\t\t\t\terr = fmt.Errorf("unexpected identity: %v",\n\t\t\t\t\t\tr.Identity.Nick)\n\t\t\t\tcase !r.Identity.Verify():\n\t\t\t\t\terr = fmt.Errorf("could not verify "+\n\t\t\t\t\t\t"identity: %v", r.Identity.Nick)\n\t\t\t\tdefault:\n\t\t\t\t\terr = z.step1IDKX(r.Identity)\n\t\t\t\t}\n\t\t\t\tif err != nil {\n\t\t\t\t\tz.PrintfT(0, "%v", err)\n\t\t\t\t}\n\t\t\t}\n\n', '\t\t\tpending := z.takePending(r.Nick)\n\n\t\t\terr = z.tagStack.Push(message.Tag)\n\t\t\tif err != nil {\n\t\t\t\texitError = fmt.Errorf("IdentityFindReply "+\n\t\t\t\t\t"invalid tag: %v", message.Tag)\n\t\t\t\treturn\n\t\t\t}\n\n\t\t\tif r.Error == "" {\n\t\t\t\terr = z.kxFound(r, pending)\n\t\t\t\tif err != nil {\n\t\t\t\t\tz.PrintfT(0, "%v", err)\n\t\t\t\t}\n\t\t\t} else {\n\t\t\t\t// Server error is verbose so just print it\n\t\t\t\tz.PrintfT(0, "%v", r.Error)\n\t\t\t}\n\n'), ('zkclient/zkclient.go', '// handleRPC deals with', '// takePending returns true if we asked for nick, it only does so once.\nfunc (z *ZKC) takePending(nick string) bool {\n\tif nick == "" {\n\t\tz.PrintfT(0, "Server did not return nick")\n\t\treturn false\n\t}\n\n\tz.pendingIdentitiesMutex.Lock()\n\tdefer z.pendingIdentitiesMutex.Unlock()\n\t_, found := z.pendingIdentities[nick]\n\tif found {\n\t\tfound = z.pendingIdentities[nick] != nil\n\t\tdelete(z.pendingIdentities, nick)\n\t}\n\treturn found\n}\n\n// kxFound starts a key exchange with the identity we asked for.\nfunc (z *ZKC) kxFound(r rpc.IdentityFindReply, pending bool) error {\n\tif !pending || r.Identity.Nick != r.Nick {\n\t\treturn fmt.Errorf("unexpected identity: %v", r.Identity.Nick)\n\t}\n\tif !r.Identity.Verify() {\n\t\treturn fmt.Errorf("could not verify identity: %v",\n\t\t\tr.Identity.Nick)\n\t}\n\treturn z.step1IDKX(r.Identity)\n}\n\n// handleRPC deals with'))
Q('cli push error helper', ('zkclient/zkclient.go', '\t\t\terr = z.handlePush(message, p)\n\t\t\tif err != nil {\n\t\t\t\t// Try to find nick\n\t\t\t\tfrom := hex.EncodeToString(p.From[:])\n\t\t\t\trid, err2 := z.addressBookFind(p.From)\n\t\t\t\tif err2 == nil {\n\t\t\t\t\tfrom = rid.Nick\n\t\t\t\t}\n\n\t\t\t\tvar ms string\n\t\t\t\tvar rErr *ratchetError\n\t\t\t\tswitch {\n\t\t\t\tcase errors.As(err, &rErr):\n\t\t\t\t\tms = fmt.Sprintf("push ratchet error "+\n\t\t\t\t\t\t"from %v: %v", from, rErr)\n\t\t\t\tdefault:\n\t\t\t\t\tms = fmt.Sprintf("could not handle "+\n\t\t\t\t\t\t"push command from %v: %v",\n\t\t\t\t\t\tfrom, err)\n\t\t\t\t}\n\n\t\t\t\t// don\'t return because even though this is\n\t\t\t\t// fatal, we are trying to ack so that the\n\t\t\t\t// server deletes the command and maybe we can\n\t\t\t\t// recover\n\t\t\t\tz.Error(idZKC, ms)\n\t\t\t\tz.PrintfT(0, REDBOLD+ms+RESET)\n\t\t\t\tz.PrintfT(0, "deleting remote message")\n\t\t\t}\n\n', '\t\t\tif err = z.handlePush(message, p); err != nil {\n\t\t\t\tz.pushFailed(p.From, err)\n\t\t\t}\n\n'), ('zkclient/zkclient.go', '// handleRPC deals with', '// pushFailed complains about a push that could not be handled.  It isn\'t fatal\n// because the ack makes the server delete the command.\nfunc (z *ZKC) pushFailed(id [zkidentity.IdentitySize]byte, err error) {\n\tfrom := hex.EncodeToString(id[:])\n\trid, err2 := z.addressBookFind(id)\n\tif err2 == nil {\n\t\tfrom = rid.Nick\n\t}\n\n\tms := fmt.Sprintf("could not handle push command from %v: %v", from, err)\n\tvar rErr *ratchetError\n\tif errors.As(err, &rErr) {\n\t\tms = fmt.Sprintf("push ratchet error from %v: %v", from, rErr)\n\t}\n\tz.Error(idZKC, ms)\n\tz.PrintfT(0, REDBOLD+ms+RESET)\n\tz.PrintfT(0, "deleting remote message")\n}\n\n// handleRPC deals with'))
Q('cli step1 seal helper', ('zkclient/zkclient.go', '\tidkx := rpc.IdentityKX{\n\t\tIdentity: z.id.Public,\n\t\tKX:       *kxRatchet,\n\t}\n\tidkxXDR := &bytes.Buffer{}\n\t_, err = xdr.Marshal(idkxXDR, idkx)\n\tif err != nil {\n\t\treturn fmt.Errorf("could not marshal identityKX: %v", err)\n\t}\n\n\tencrypted, nonce, err := blobshare.Encrypt(idkxXDR.Bytes(), nk)\n\tif err != nil {\n\t\treturn fmt.Errorf("could not encrypt IdentityKX: %v", err)\n\t}\n\n\tpacked := blobshare.PackNonce(nonce, encrypted)\n\tpayload := append(nc[:], packed...)\n\n', '\tsealed, err := z.sealKX(kxRatchet, nk)\n\tif err != nil {\n\t\treturn err\n\t}\n\tpayload := append(append([]byte{}, nc[:]...), sealed...)\n\n'), ('zkclient/zkclient.go', 'func (z *ZKC) step1IDKX(', '// sealKX seals our identity and half of the exchange.\nfunc (z *ZKC) sealKX(kx *ratchet.KeyExchange, key *[32]byte) ([]byte, error) {\n\tvar bb bytes.Buffer\n\t_, err := xdr.Marshal(&bb, rpc.IdentityKX{\n\t\tIdentity: z.id.Public,\n\t\tKX:       *kx,\n\t})\n\tif err != nil {\n\t\treturn nil, fmt.Errorf("could not marshal identityKX: %v", err)\n\t}\n\n\tencrypted, nonce, err := blobshare.Encrypt(bb.Bytes(), key)\n\tif err != nil {\n\t\treturn nil, fmt.Errorf("could not encrypt IdentityKX: %v", err)\n\t}\n\treturn blobshare.PackNonce(nonce, encrypted), nil\n}\n\nfunc (z *ZKC) step1IDKX('))
Q('cli step1 key first', ('zkclient/zkclient.go', '\t// save everything that is needed to handle the reply prior to sending\n\terr = z.saveIdentity(id)\n\tif err != nil {\n\t\treturn fmt.Errorf("could not save identity: %v", err)\n\t}\n\n\terr = z.saveKey(nk)\n\tif err != nil {\n\t\treturn fmt.Errorf("could not save key: %v", err)\n\t}\n\n', '\t// save everything that is needed to handle the reply prior to sending\n\tif err = z.saveKey(nk); err != nil {\n\t\treturn fmt.Errorf("could not save key: %v", err)\n\t}\n\tif err = z.saveIdentity(id); err != nil {\n\t\treturn fmt.Errorf("could not save identity: %v", err)\n\t}\n\n'))
Q('cli request helper', ('zkclient/zkclient.go', 'func (z *ZKC) cache(to [32]byte, blob []byte) error {\n\tif !z.isOnline() {\n\t\treturn fmt.Errorf("not online")\n\t}\n\n\ttag, err := z.tagStack.Pop()\n\tif err != nil {\n\t\treturn fmt.Errorf("could not obtain tag: %v", err)\n\t}\n\n\tz.schedulePRPC(true,\n\t\trpc.Message{\n\t\t\tCommand: rpc.TaggedCmdCache,\n\t\t\tTag:     tag,\n\t\t},\n\t\trpc.Cache{\n\t\t\tTo:      to,\n\t\t\tPayload: blob,\n\t\t})\n\n\treturn nil\n}\n\nfunc (z *ZKC) rendezvous(blob []byte) error {\n\tif !z.isOnline() {\n\t\treturn fmt.Errorf("not online")\n\t}\n\n\ttag, err := z.tagStack.Pop()\n\tif err != nil {\n\t\treturn fmt.Errorf("could not obtain tag: %v", err)\n\t}\n\n\tz.schedulePRPC(true,\n\t\trpc.Message{\n\t\t\tCommand: rpc.TaggedCmdRendezvous,\n\t\t\tTag:     tag,\n\t\t},\n\t\trpc.Rendezvous{\n\t\t\tBlob:       blob,\n\t\t\tExpiration: strconv.Itoa(int(24)),\n\t\t})\n\n\treturn nil\n}\n\n', '// request queues a command that uses a tag.\nfunc (z *ZKC) request(command string, payload interface{}) error {\n\tif !z.isOnline() {\n\t\treturn fmt.Errorf("not online")\n\t}\n\n\ttag, err := z.tagStack.Pop()\n\tif err != nil {\n\t\treturn fmt.Errorf("could not obtain tag: %v", err)\n\t}\n\n\tz.schedulePRPC(true, rpc.Message{Command: command, Tag: tag}, payload)\n\n\treturn nil\n}\n\nfunc (z *ZKC) cache(to [32]byte, blob []byte) error {\n\treturn z.request(rpc.TaggedCmdCache, rpc.Cache{\n\t\tTo:      to,\n\t\tPayload: blob,\n\t})\n}\n\nfunc (z *ZKC) rendezvous(blob []byte) error {\n\treturn z.request(rpc.TaggedCmdRendezvous, rpc.Rendezvous{\n\t\tBlob:       blob,\n\t\tExpiration: strconv.Itoa(24),\n\t})\n}\n\n'))
Q('cli conversation helper', ('zkclient/zkclient.go', '\tx := -1\n\tfor k, v := range z.conversation {\n\t\tif v.group && v.id.Nick == group {\n\t\t\treturn v, k, nil\n\t\t}\n\t\t// next free slot\n\t\tif x == -1 && v == nil {\n\t\t\tx = k\n\t\t}\n\t}\n\n\t// add to array\n\tif x == -1 {\n\t\tx = len(z.conversation)\n\t\tz.conversation = append(z.conversation, nil)\n\t}\n\tz.conversation[x] = c\n\n', '\tx, found := z._listConversation(c, func(v *conversation) bool {\n\t\treturn v.group && v.id.Nick == group\n\t})\n\tif found {\n\t\treturn z.conversation[x], x, nil\n\t}\n\n'), ('zkclient/zkclient.go', '\tx := -1\n\tfor k, v := range z.conversation {\n\t\tif bytes.Equal(v.id.Identity[:], id[:]) {\n\t\t\treturn v, k, nil\n\t\t}\n\t\t// next free slot\n\t\tif x == -1 && v == nil {\n\t\t\tx = k\n\t\t}\n\t}\n\n\tif x == -1 {\n\t\tx = len(z.conversation)\n\t\tz.conversation = append(z.conversation, nil)\n\t}\n\tz.conversation[x] = c\n\n', '\tx, found := z._listConversation(c, func(v *conversation) bool {\n\t\treturn bytes.Equal(v.id.Identity[:], id[:])\n\t})\n\tif found {\n\t\treturn z.conversation[x], x, nil\n\t}\n\n'), ('zkclient/zkclient.go', 'func (z *ZKC) getConversation(', '// _listConversation returns the index of the conversation that is the same, if\n// there is none c is listed.\nfunc (z *ZKC) _listConversation(c *conversation, same func(*conversation) bool) (int, bool) {\n\tx := -1\n\tfor k, v := range z.conversation {\n\t\tif same(v) {\n\t\t\treturn k, true\n\t\t}\n\t\t// next free slot\n\t\tif x == -1 && v == nil {\n\t\t\tx = k\n\t\t}\n\t}\n\tif x == -1 {\n\t\tx = len(z.conversation)\n\t\tz.conversation = append(z.conversation, nil)\n\t}\n\tz.conversation[x] = c\n\treturn x, false\n}\n\nfunc (z *ZKC) getConversation('))
Q('cli addressbook lookups', ('zkclient/addressbook/addressbook.go', '\tvar (\n\t\tfound bool\n\t\ti     zkidentity.PublicIdentity\n\t\terr   error\n\t)\n\n\tfor {\n\t\ti, found = a.identities[identity.Nick]\n\t\tif found {\n\t\t\t// if identity is identical do not alter nick\n\t\t\tif bytes.Equal(identity.Identity[:], i.Identity[:]) {\n\t\t\t\tbreak\n\t\t\t}\n\t\t\tidentity.Nick += "_"\n\t\t\terr = ErrDuplicateNick // mark nick as seen\n\t\t\tcontinue\n\t\t}\n\t\tbreak\n\t}\n', '\tvar err error\n\tfor {\n\t\ti, found := a.identities[identity.Nick]\n\t\tif !found || i.Identity == identity.Identity {\n\t\t\tbreak\n\t\t}\n\t\tidentity.Nick += "_"\n\t\terr = ErrDuplicateNick // mark nick as seen\n\t}\n'), ('zkclient/addressbook/addressbook.go', '\tfor k, v := range a.identities {\n\t\tif !bytes.Equal(v.Identity[:], id[:]) {\n\t\t\tcontinue\n\t\t}\n\n\t\tdelete(a.identities, k)\n\t\treturn nil\n\t}\n\n', '\tfor k := range a.identities {\n\t\tif a.identities[k].Identity == id {\n\t\t\tdelete(a.identities, k)\n\t\t\treturn nil\n\t\t}\n\t}\n\n'))
Q('cli send digest helper', ('zkclient/send.go', '\t// get digest\n\th := sha256.New()\n\t_, err := io.Copy(h, f)\n\tif err != nil {\n\t\tz.PrintfT(0, "send failed (%v->%v): digest %v",\n\t\t\tcn.Filename,\n\t\t\tnick,\n\t\t\terr)\n\t\treturn\n\t}\n\tcopy(cn.Digest[:], h.Sum(nil))\n\n\t// rewind\n\t_, err = f.Seek(0, io.SeekStart)\n\tif err != nil {\n\t\tz.PrintfT(0, "send failed (%v->%v): seek %v",\n\t\t\tcn.Filename,\n\t\t\tnick,\n\t\t\terr)\n\t\treturn\n\t}\n\n', '\tdigest, err := digestAndRewind(f)\n\tif err != nil {\n\t\tz.PrintfT(0, "send failed (%v->%v): %v", cn.Filename, nick, err)\n\t\treturn\n\t}\n\tcn.Digest = digest\n\n'), ('zkclient/send.go', '\t\tcopy(c.Digest[:], h.Sum(nil))\n', '\t\tc.Digest = digest\n'), ('zkclient/send.go', '// XXX should echo errors', 'func digestAndRewind(f *os.File) (digest [sha256.Size]byte, err error) {\n\th := sha256.New()\n\tif _, err = io.Copy(h, f); err != nil {\n\t\treturn digest, fmt.Errorf("digest %v", err)\n\t}\n\tcopy(digest[:], h.Sum(nil))\n\tif _, err = f.Seek(0, io.SeekStart); err != nil {\n\t\treturn digest, fmt.Errorf("seek %v", err)\n\t}\n\treturn digest, nil\n}\n\n// XXX should echo errors'))
Q('cli welcome parse helper', ('zkclient/zkclient.go', '\t\tcase rpc.PropMaxChunkSize:\n\t\t\tcs, err = strconv.ParseUint(v.Value, 10, 64)\n\t\t\tif err != nil {\n\t\t\t\treturn nil, fmt.Errorf("invalid max chunk "+\n\t\t\t\t\t"size: %v", err)\n\t\t\t}\n\n\t\tcase rpc.PropMaxMsgSize:\n\t\t\tms, err = strconv.ParseUint(v.Value, 10, 64)\n\t\t\tif err != nil {\n\t\t\t\treturn nil, fmt.Errorf("invalid max chunk "+\n\t\t\t\t\t"size: %v", err)\n\t\t\t}\n\n\t\tcase rpc.PropMaxAttachmentSize:\n\t\t\tas, err = strconv.ParseUint(v.Value, 10, 64)\n\t\t\tif err != nil {\n\t\t\t\treturn nil, fmt.Errorf("invalid attachment "+\n\t\t\t\t\t"chunk size: %v", err)\n\t\t\t}\n\n', '\t\tcase rpc.PropMaxChunkSize:\n\t\t\tcs, err = parseSize("chunk", v.Value)\n\t\t\tif err != nil {\n\t\t\t\treturn nil, err\n\t\t\t}\n\n\t\tcase rpc.PropMaxMsgSize:\n\t\t\tms, err = parseSize("message", v.Value)\n\t\t\tif err != nil {\n\t\t\t\treturn nil, err\n\t\t\t}\n\n\t\tcase rpc.PropMaxAttachmentSize:\n\t\t\tas, err = parseSize("attachment", v.Value)\n\t\t\tif err != nil {\n\t\t\t\treturn nil, err\n\t\t\t}\n\n'), ('zkclient/zkclient.go', 'func (z *ZKC) welcomePhase(', 'func parseSize(what, value string) (uint64, error) {\n\tn, err := strconv.ParseUint(value, 10, 64)\n\tif err != nil {\n\t\treturn 0, fmt.Errorf("invalid %v size: %v", what, err)\n\t}\n\treturn n, nil\n}\n\nfunc (z *ZKC) welcomePhase('))
Q('cli goOnline close once', ('zkclient/zkclient.go', '\t// XXX check cert here\n\tif !bytes.Equal(cs.PeerCertificates[0].Raw, z.cert) {\n\t\tconn.Close()\n\t\tz.provisionalCert = cs.PeerCertificates[0].Raw\n\t\treturn nil, errCert\n\t}\n\n\tkx, err := z.sessionPhase(conn)\n\tif err != nil {\n\t\tconn.Close()\n\t\treturn nil, err\n\t}\n\n\twelcome, err := z.welcomePhase(kx)\n\tif err != nil {\n\t\tconn.Close()\n\t\treturn nil, err\n\t}\n\n', '\tok := false\n\tdefer func() {\n\t\tif !ok {\n\t\t\tconn.Close()\n\t\t}\n\t}()\n\n\t// XXX check cert here\n\traw := cs.PeerCertificates[0].Raw\n\tif !bytes.Equal(raw, z.cert) {\n\t\tz.provisionalCert = raw\n\t\treturn nil, errCert\n\t}\n\n\tkx, err := z.sessionPhase(conn)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\n\twelcome, err := z.welcomePhase(kx)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\tok = true\n\n'))
Q('cli await ack helper', ('zkclient/msg.go', '\tz.Lock()\n\tz.tagCallback[tag] = &cb{\n\t\tcallback: f,\n\t\tto:       *r.TheirIdentityPublic,\n\t}\n\tz.Unlock()\n\n', '\tz.awaitAck(tag, *r.TheirIdentityPublic, f)\n\n'), ('zkclient/msg.go', 'func (z *ZKC) cacheCRPC(', '// awaitAck remembers who to call when tag comes back.\nfunc (z *ZKC) awaitAck(tag uint32, to [zkidentity.IdentitySize]byte, f func()) {\n\tz.Lock()\n\tdefer z.Unlock()\n\n\tc := &cb{to: to}\n\tc.callback = f\n\tz.tagCallback[tag] = c\n}\n\nfunc (z *ZKC) cacheCRPC('))
B('cli ack cleared by helper unchecked', 'C01', ('zkclient/zkclient.go', '\t\t\tz.Lock()\n\t\t\tif message.Tag >= uint32(len(z.tagCallback)) {\n\t\t\t\texitError = fmt.Errorf("Acknowledge "+\n\t\t\t\t\t"invalid tag: %v", message.Tag)\n\t\t\t\tz.Unlock()\n\t\t\t\treturn\n\t\t\t}\n\t\t\tc := z.tagCallback[message.Tag]\n\t\t\tz.tagCallback[message.Tag] = nil\n\t\t\tz.Unlock()\n', '\t\t\tc := z.takeCallback(message.Tag)\n'), ('zkclient/msg.go', 'func (z *ZKC) cacheCRPC(', 'func (z *ZKC) takeCallback(tag uint32) *cb {\n\tz.Lock()\n\tdefer z.Unlock()\n\tc := z.tagCallback[tag]\n\tz.tagCallback[tag] = nil\n\treturn c\n}\n\nfunc (z *ZKC) cacheCRPC('))
Q('cli invite token helper', ('zkclient/groupinvites.go', '\t// create new token\n\tvar (\n\t\ttoken uint64\n\t\tretry int\n\t)\n\tfor retry = 5; retry > 0; retry-- {\n\t\ttoken, err = tools.RandomUint64()\n\t\tif err != nil {\n\t\t\t// out of entropy\n\t\t\ttime.Sleep(500 * time.Millisecond)\n\t\t\tcontinue\n\t\t}\n\n\t\t// make token a bit shorter\n\t\ttoken %= 1000000\n\n\t\tbreak\n\t}\n\tif retry == 0 {\n\t\treturn nil, fmt.Errorf("out of entropy")\n\t}\n\n', '\ttoken, err := newInviteToken()\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\n'), ('zkclient/groupinvites.go', '// inviteDBAdd adds an identity', '// newInviteToken returns a short random token.\nfunc newInviteToken() (uint64, error) {\n\tfor retry := 0; retry < 5; retry++ {\n\t\ttoken, err := tools.RandomUint64()\n\t\tif err == nil {\n\t\t\treturn token % 1000000, nil\n\t\t}\n\t\t// out of entropy\n\t\ttime.Sleep(500 * time.Millisecond)\n\t}\n\treturn 0, fmt.Errorf("out of entropy")\n}\n\n// inviteDBAdd adds an identity'))
Q('cli reset remove helper', ('zkclient/reset.go', '\tz.ratchetMtx.Lock()\n\n\t// always remove half ratchet\n\tos.Remove(path.Join(fullPath, halfRatchetFilename))\n\n\t// delete ratchet from disk\n\tos.Remove(path.Join(fullPath, ratchetFilename))\n\n\tz.ratchetMtx.Unlock()\n\n', '\tz.dropRatchets(fullPath)\n\n'), ('zkclient/reset.go', 'func (z *ZKC) handleResetRatchet(', 'func (z *ZKC) dropRatchets(dir string) {\n\tz.ratchetMtx.Lock()\n\tdefer z.ratchetMtx.Unlock()\n\n\tfor _, name := range []string{halfRatchetFilename, ratchetFilename} {\n\t\tos.Remove(path.Join(dir, name))\n\t}\n}\n\nfunc (z *ZKC) handleResetRatchet('))
B('cli reset remove helper unlocked', 'C20', ('zkclient/reset.go', '\tz.ratchetMtx.Lock()\n\n\t// always remove half ratchet\n\tos.Remove(path.Join(fullPath, halfRatchetFilename))\n\n\t// delete ratchet from disk\n\tos.Remove(path.Join(fullPath, ratchetFilename))\n\n\tz.ratchetMtx.Unlock()\n\n', '\tz.dropRatchets(fullPath)\n\n'), ('zkclient/reset.go', 'func (z *ZKC) handleResetRatchet(', 'func (z *ZKC) dropRatchets(dir string) {\n\tfor _, name := range []string{halfRatchetFilename, ratchetFilename} {\n\t\tos.Remove(path.Join(dir, name))\n\t}\n}\n\nfunc (z *ZKC) handleResetRatchet('))
Q('cli reset uses removeRatchet', ('zkclient/reset.go', '\tz.ratchetMtx.Lock()\n\n\t// always remove half ratchet\n\tos.Remove(path.Join(fullPath, halfRatchetFilename))\n\n\t// delete ratchet from disk\n\tos.Remove(path.Join(fullPath, ratchetFilename))\n\n\tz.ratchetMtx.Unlock()\n\n', '\tz.ratchetMtx.Lock()\n\tz.removeRatchet(from, true)\n\tz.removeRatchet(from, false)\n\tz.ratchetMtx.Unlock()\n\n'), ('zkclient/reset.go', '\tfullPath := path.Join(z.settings.Root, inboundDir, ids)\n\n', '\n'), ('zkclient/reset.go', '\t"os"\n\t"path"\n', ''))
B('cli invite allowed helper unchecked', 'C21', ('zkclient/groupchat.go', '\tg, found := z.groups[args[2]]\n\tif !found {\n\t\treturn fmt.Errorf("group chat not found: %v", args[2])\n\t}\n\tif len(g.Members) == 0 {\n\t\treturn fmt.Errorf("group chat %v has no administrator", args[2])\n\t}\n\tif !bytes.Equal(g.Members[0][:], z.id.Public.Identity[:]) {\n\t\treturn fmt.Errorf("must be administrator to invite to: %v",\n\t\t\targs[2])\n\t}\n\n\t// make sure id isn\'t in group already\n\tfor _, v := range g.Members {\n\t\tif bytes.Equal(v[:], id.Identity[:]) {\n\t\t\treturn fmt.Errorf("already a member: %v", args[3])\n\t\t}\n\t}\n\n', '\tg, err := z._mayInvite(args[2], id.Identity)\n\tif err != nil {\n\t\treturn err\n\t}\n\n'), ('zkclient/groupchat.go', 'func (z *ZKC) gcInvite(', '// _mayInvite returns the group if we can invite id to it.\nfunc (z *ZKC) _mayInvite(group string, id [zkidentity.IdentitySize]byte) (rpc.GroupList, error) {\n\tg, found := z.groups[group]\n\tif !found {\n\t\treturn g, fmt.Errorf("group chat not found: %v", group)\n\t}\n\tif len(g.Members) == 0 {\n\t\treturn g, fmt.Errorf("must be administrator to invite to: %v",\n\t\t\tgroup)\n\t}\n\tfor i := len(g.Members) - 1; i >= 0; i-- {\n\t\tif g.Members[i] == id {\n\t\t\treturn g, fmt.Errorf("already a member: %x", id)\n\t\t}\n\t}\n\treturn g, nil\n}\n\nfunc (z *ZKC) gcInvite('))

MSg='zkclient/msg.go'; PUg='zkclient/push.go'; ZCg='zkclient/zkclient.go'; MWg='zkclient/mainwindow.go'; GCg='zkclient/groupchat.go'; SNg='zkclient/send.go'
B('to own identity','C28',(MSg,'''			To:      *r.TheirIdentityPublic,
''','''			To:      z.id.Public.Identity,
'''))
B('ratchet of the last callback','C28',(MSg,'''	r, err := z.loadRatchet(id, false)
	if err != nil {
		// This error is special''','''	if len(z.tagCallback) > 0 && z.tagCallback[0] != nil {
		id = z.tagCallback[0].to
	}
	r, err := z.loadRatchet(id, false)
	if err != nil {
		// This error is special'''))
B('ratchet read from own dir','C28',('zkclient/identity.go','''	ids := hex.EncodeToString(id[:])
	fullPath := path.Join(z.settings.Root, inboundDir, ids)

	// read ratchet from disk
''','''	ids := hex.EncodeToString(z.id.Public.Identity[:])
	fullPath := path.Join(z.settings.Root, inboundDir, ids)

	// read ratchet from disk
'''))
B('ratchet written elsewhere','C28',('zkclient/identity.go','''	ids := hex.EncodeToString(r.TheirIdentityPublic[:])
	fullPath := path.Join(z.settings.Root, inboundDir, ids)
	f, err''','''	ids := hex.EncodeToString(z.id.Public.Identity[:])
	fullPath := path.Join(z.settings.Root, inboundDir, ids)
	f, err'''))
B('pm to console','C28',(MWg,'''			c := mw.zkc.conversation[win]
			if !c.group {''','''			c := mw.zkc.conversation[len(mw.zkc.conversation)-1]
			if !c.group {'''))
B('pm to group','C28',(MWg,'''			if v == nil || k == 0 || v.group {
				continue
			}
			if args[1] == v.nick {''','''			if v == nil || k == 0 {
				continue
			}
			if args[1] == v.nick {'''))
B('pm nick prefix','C28',(MWg,'''			if args[1] == v.nick {''','''			if strings.HasPrefix(v.nick, args[1]) {'''))
B('me to group id','C28',(MWg,'''		if c.group {
			// just fake it''','''		if c.group && len(args) > 2 {
			// just fake it'''))
B('send to active','C28',(MWg,'''		err = mw.zkc.send(c.id.Identity, args[1], args[2], desc)
''','''		if w := mw.zkc.conversation[len(mw.zkc.conversation)-1]; w != nil {
			c = w
		}
		err = mw.zkc.send(c.id.Identity, args[1], args[2], desc)
'''))
B('pm shown in active','C28',(PUg,'''	z.PrintfTS(win, time.Unix(p.Received, 0), "%v %v", n, pm.Text)
''','''	if win < 2 {
		win = -1
	}
	z.PrintfTS(win, time.Unix(p.Received, 0), "%v %v", n, pm.Text)
'''))
B('pm under active nick','C28',(PUg,'''		n = fmt.Sprintf("<%v>", z.settings.PmColor+c.nick+RESET)
	}
	z.PrintfTS(win''','''		n = fmt.Sprintf("<%v>", z.settings.PmColor+z.conversation[z.active].nick+RESET)
	}
	z.PrintfTS(win'''))
B('gm in active','C28',(PUg,'''	z.PrintfTS(win, time.Unix(p.Received, 0), "%v %v", n, s)
''','''	if c.mentioned {
		win = z.active
	}
	z.PrintfTS(win, time.Unix(p.Received, 0), "%v %v", n, s)
'''))
B('gm under admin nick','C28',(PUg,'''	id, err := z.ab.FindIdentity(p.From)
	if err == nil {
		nick = id.Nick
	}

	// see if we were''','''	id, err := z.ab.FindIdentity(gc.Members[0])
	if err == nil {
		nick = id.Nick
	}

	// see if we were'''))
B('conversation by nick','C28',(ZCg,'''		if bytes.Equal(v.id.Identity[:], id[:]) {
			return v, k, nil
		}
		// next''','''		if v != nil && v.nick == c.nick {
			return v, k, nil
		}
		// next'''))
B('conversation prefix','C28',(ZCg,'''		if bytes.Equal(v.id.Identity[:], id[:]) {
			return v, k, nil
		}
		// next''','''		if bytes.HasPrefix(v.id.Identity[:], id[:4]) {
			return v, k, nil
		}
		// next'''))
B('push with other ratchet','C28',(PUg,'''	r, err := z.loadRatchet(p.From, false)
	if err != nil {
		z.ratchetMtx.Unlock()''','''	from := p.From
	if len(z.groups) == 1 {
		for _, g := range z.groups {
			from = g.Members[0]
		}
	}
	r, err := z.loadRatchet(from, false)
	if err != nil {
		z.ratchetMtx.Unlock()'''))
B('join to inviter nick','C28',(GCg,'''	z.scheduleCRPC(true, &gc.Members[0], rpc.GroupPart{''','''	z.scheduleCRPC(true, &z.conversation[z.active].id.Identity, rpc.GroupPart{'''))
B('invite to own id','C28',(GCg,'''	z.scheduleCRPC(true, &id.Identity, *gi)
''','''	z.scheduleCRPC(true, &z.id.Public.Identity, *gi)
'''))
B('chunk to self','C28',(SNg,'''		z.scheduleCRPC(false, &id, c) // should block
''','''		z.scheduleCRPC(false, &z.id.Public.Identity, c) // should block
'''))
B('seal other payload','C28',(MSg,'''			Payload: m,
		})''','''			Payload: r.TheirIdentityPublic[:],
		})'''))
Q('c28 window helper',(MWg,'''			if v == nil || k == 0 || v.group {
				continue
			}
			if args[1] == v.nick {
				c = v
				win = k
				break
			}
''','''			if k > 0 && isPerson(v, args[1]) {
				c, win = v, k
				break
			}
'''),(MWg,'''// doPm sends''','''func isPerson(c *conversation, nick string) bool {
	return c != nil && !c.group && c.nick == nick
}

// doPm sends'''))
B('c28 window helper group','C28',(MWg,'''			if v == nil || k == 0 || v.group {
				continue
			}
			if args[1] == v.nick {
				c = v
				win = k
				break
			}
''','''			if k > 0 && isPerson(v, args[1]) {
				c, win = v, k
				break
			}
'''),(MWg,'''// doPm sends''','''func isPerson(c *conversation, nick string) bool {
	return c != nil && (!c.group || c.separator) && c.nick == nick
}

// doPm sends'''))
Q('c28 window finder',(MWg,'''		mw.zkc.RLock()
		for k, v := range mw.zkc.conversation {
			// skip console and groups
			if v == nil || k == 0 || v.group {
				continue
			}
			if args[1] == v.nick {
				c = v
				win = k
				break
			}
		}
		mw.zkc.RUnlock()
''','''		c, win = mw.zkc.personWindow(args[1])
'''),(MWg,'''// doPm sends''','''func (z *ZKC) personWindow(nick string) (*conversation, int) {
	z.RLock()
	defer z.RUnlock()
	for k, v := range z.conversation {
		if v == nil || k == 0 || v.group {
			continue
		}
		if v.nick == nick {
			return v, k
		}
	}
	return nil, 0
}

// doPm sends'''))
B('c28 window finder group','C28',(MWg,'''		mw.zkc.RLock()
		for k, v := range mw.zkc.conversation {
			// skip console and groups
			if v == nil || k == 0 || v.group {
				continue
			}
			if args[1] == v.nick {
				c = v
				win = k
				break
			}
		}
		mw.zkc.RUnlock()
''','''		c, win = mw.zkc.personWindow(args[1])
'''),(MWg,'''// doPm sends''','''func (z *ZKC) personWindow(nick string) (*conversation, int) {
	z.RLock()
	defer z.RUnlock()
	for k, v := range z.conversation {
		if v == nil || k == 0 {
			continue
		}
		if v.nick == nick {
			return v, k
		}
	}
	return nil, 0
}

// doPm sends'''))
Q('c28 slot helper',(ZCg,'''	for k, v := range z.conversation {
		if bytes.Equal(v.id.Identity[:], id[:]) {
			return v, k, nil
		}
		// next free slot
		if x == -1 && v == nil {
			x = k
		}
	}

	if x == -1 {
		x = len(z.conversation)
		z.conversation = append(z.conversation, nil)
	}
	z.conversation[x] = c

	z.PrintfT(0, "conversation started [%v]: %v %v",
''','''	for k, v := range z.conversation {
		if v.id.Identity == id {
			return v, k, nil
		}
		// next free slot
		if x == -1 && v == nil {
			x = k
		}
	}

	if x == -1 {
		x = len(z.conversation)
		z.conversation = append(z.conversation, c)
	} else {
		z.conversation[x] = c
	}

	z.PrintfT(0, "conversation started [%v]: %v %v",
'''))
Q('c28 open window helper',(ZCg,'''	x := -1
	for k, v := range z.conversation {
		if bytes.Equal(v.id.Identity[:], id[:]) {
			return v, k, nil
		}
		// next free slot
		if x == -1 && v == nil {
			x = k
		}
	}
''','''	if k := z.windowOf(id); k != -1 {
		return z.conversation[k], k, nil
	}
	x := -1
	for k, v := range z.conversation {
		// next free slot
		if v == nil {
			x = k
			break
		}
	}
'''),(ZCg,'''func (z *ZKC) query(nick string) {''','''func (z *ZKC) windowOf(id [zkidentity.IdentitySize]byte) int {
	for k, v := range z.conversation {
		if bytes.Equal(v.id.Identity[:], id[:]) {
			return k
		}
	}
	return -1
}

func (z *ZKC) query(nick string) {'''))
Q('c28 open window helper pointer',(ZCg,'''	x := -1
	for k, v := range z.conversation {
		if bytes.Equal(v.id.Identity[:], id[:]) {
			return v, k, nil
		}
		// next free slot
		if x == -1 && v == nil {
			x = k
		}
	}
''','''	if v, k := z.windowOf(id); v != nil {
		return v, k, nil
	}
	x := -1
	for k, v := range z.conversation {
		// next free slot
		if v == nil {
			x = k
			break
		}
	}
'''),(ZCg,'''func (z *ZKC) query(nick string) {''','''func (z *ZKC) windowOf(id [zkidentity.IdentitySize]byte) (*conversation, int) {
	for k, v := range z.conversation {
		if bytes.Equal(v.id.Identity[:], id[:]) {
			return v, k
		}
	}
	return nil, -1
}

func (z *ZKC) query(nick string) {'''))
Q('c28 to id',(MSg,'''			To:      *r.TheirIdentityPublic,
''','''			To:      id,
'''))
Q('c28 cache variable',(MSg,'''	err = z.writeMessage(msg,
		rpc.Cache{
			To:      *r.TheirIdentityPublic,
			Payload: m,
		})
''','''	c := rpc.Cache{Payload: m}
	c.To = *r.TheirIdentityPublic
	err = z.writeMessage(msg, c)
'''))
Q('c28 encrypt in caller',(MSg,'''	// encrypt CRPC
	return r.Encrypt(nil, bb.Bytes())
}''','''	return bb.Bytes(), nil
}'''),(MSg,'''	m, err := z.crpc(r, payload)
	if err != nil {
		return fmt.Errorf("could not compose %T: %v", payload, err)
	}
''','''	m, err := z.crpc(r, payload)
	if err == nil {
		m, err = r.Encrypt(nil, m)
	}
	if err != nil {
		return fmt.Errorf("could not compose %T: %v", payload, err)
	}
'''))
Q('c28 pm line helper',(PUg,'''	var n string
	if pm.Mode == rpc.MessageModeMe {
		n = fmt.Sprintf("* %v", z.settings.PmColor+c.nick+RESET)
	} else {
		n = fmt.Sprintf("<%v>", z.settings.PmColor+c.nick+RESET)
	}
	z.PrintfTS(win, time.Unix(p.Received, 0), "%v %v", n, pm.Text)
''','''	z.showMessage(win, p, pm.Mode, z.settings.PmColor+c.nick+RESET, pm.Text)
'''),(PUg,'''func (z *ZKC) handleGroupInvite(msg''','''func (z *ZKC) showMessage(win int, p rpc.Push, mode rpc.MessageMode, nick, text string) {
	n := "<" + nick + ">"
	if mode == rpc.MessageModeMe {
		n = "* " + nick
	}
	z.PrintfTS(win, time.Unix(p.Received, 0), "%v %v", n, text)
}

func (z *ZKC) handleGroupInvite(msg'''))
B('c28 pm line helper wrong','C28',(PUg,'''	var n string
	if pm.Mode == rpc.MessageModeMe {
		n = fmt.Sprintf("* %v", z.settings.PmColor+c.nick+RESET)
	} else {
		n = fmt.Sprintf("<%v>", z.settings.PmColor+c.nick+RESET)
	}
	z.PrintfTS(win, time.Unix(p.Received, 0), "%v %v", n, pm.Text)
''','''	z.showMessage(win, p, pm.Mode, z.settings.PmColor+c.nick+RESET, pm.Text)
'''),(PUg,'''func (z *ZKC) handleGroupInvite(msg''','''func (z *ZKC) showMessage(win int, p rpc.Push, mode rpc.MessageMode, nick, text string) {
	n := "<" + nick + ">"
	if mode == rpc.MessageModeMe {
		n = "* " + nick
		win = -1
	}
	z.PrintfTS(win, time.Unix(p.Received, 0), "%v %v", n, text)
}

func (z *ZKC) handleGroupInvite(msg'''))
Q('c28 gm nick helper',(PUg,'''	nick := hex.EncodeToString(p.From[:])
	id, err := z.ab.FindIdentity(p.From)
	if err == nil {
		nick = id.Nick
	}

	// see if we were''','''	nick := z.memberNick(p.From)

	// see if we were'''),(PUg,'''func (z *ZKC) handleGroupInvite(msg''','''func (z *ZKC) memberNick(from [zkidentity.IdentitySize]byte) string {
	id, err := z.ab.FindIdentity(from)
	if err != nil {
		return hex.EncodeToString(from[:])
	}
	return id.Nick
}

func (z *ZKC) handleGroupInvite(msg'''))
Q('c28 members helper',(GCg,'''	for i := 0; i < len(gc.Members); i++ {
		if bytes.Equal(gc.Members[i][:], z.id.Public.Identity[:]) {
			continue
		}

		//z.Dbg(idSnd, "schedule CRPC")
		z.scheduleCRPC(true, &gc.Members[i], rpc.GroupMessage{
			Name:       args[2],
			Generation: gc.Generation,
			Message:    msg,
			Mode:       mode,
		})
	}
''','''	for _, m := range z.others(gc.Members) {
		m := m
		z.scheduleCRPC(true, &m, rpc.GroupMessage{
			Name:       args[2],
			Generation: gc.Generation,
			Message:    msg,
			Mode:       mode,
		})
	}
'''),(GCg,'''func (z *ZKC) gcMessage(''','''func (z *ZKC) others(members [][zkidentity.IdentitySize]byte) [][zkidentity.IdentitySize]byte {
	var o [][zkidentity.IdentitySize]byte
	for _, m := range members {
		if !bytes.Equal(m[:], z.id.Public.Identity[:]) {
			o = append(o, m)
		}
	}
	return o
}

func (z *ZKC) gcMessage('''))
Q('c28 inbound path helper',('zkclient/identity.go','''	ids := hex.EncodeToString(id[:])
	fullPath := path.Join(z.settings.Root, inboundDir, ids)

	// read ratchet from disk
''','''	ids := hex.EncodeToString(id[:])
	fullPath := z.inboundOf(&id)

	// read ratchet from disk
'''),('zkclient/identity.go','''	ids := hex.EncodeToString(r.TheirIdentityPublic[:])
	fullPath := path.Join(z.settings.Root, inboundDir, ids)
	f, err''','''	fullPath := z.inboundOf(r.TheirIdentityPublic)
	f, err'''),('zkclient/identity.go','''func (z *ZKC) loadRatchet(''','''func (z *ZKC) inboundOf(id *[zkidentity.IdentitySize]byte) string {
	return path.Join(z.settings.Root, inboundDir, hex.EncodeToString(id[:]))
}

func (z *ZKC) loadRatchet('''))
Q('c28 pm by id',(MWg,'''	err := mw.zkc.pm(c.id.Identity, msg, rpc.MessageModeNormal)
''','''	to := c.id.Identity
	err := mw.zkc.pm(to, msg, rpc.MessageModeNormal)
'''))
Q('c28 active conversation helper',(MWg,'''			win := mw.zkc.active
			c := mw.zkc.conversation[win]
			if !c.group {''','''			c, win := mw.zkc.activeConversation()
			if !c.group {'''),(MWg,'''// doPm sends''','''func (z *ZKC) activeConversation() (*conversation, int) {
	return z.conversation[z.active], z.active
}

// doPm sends'''))
Q('c28 scheduler helper',(MSg,'''*m.id,
							m.payload''','''m.target(),
							m.payload'''),(MSg,'''func (z *ZKC) isOnline() bool {''','''func (m *wireMsg) target() [zkidentity.IdentitySize]byte {
	return *m.id
}

func (z *ZKC) isOnline() bool {'''))

AB='zkclient/addressbook/addressbook.go'
B('ab overwrite','C40',(AB,'''			if bytes.Equal(identity.Identity[:], i.Identity[:]) {
				break
			}
			identity.Nick += "_"''','''			if bytes.Equal(identity.Identity[:4], i.Identity[:4]) || len(identity.Nick) > 64 {
				break
			}
			identity.Nick += "_"'''))
B('ab overwrite by name','C40',(AB,'''			if bytes.Equal(identity.Identity[:], i.Identity[:]) {
				break
			}
			identity.Nick += "_"''','''			if bytes.Equal(identity.Identity[:], i.Identity[:]) || identity.Name == i.Name {
				break
			}
			identity.Nick += "_"'''))
B('ab once','C40',(AB,'''	for {
		i, found =''','''	for n := 0; n < 2; n++ {
		i, found ='''))
B('ab other key','C40',(AB,'''	a.identities[identity.Nick] = identity
''','''	a.identities[strings.TrimSpace(identity.Nick)] = identity
'''),(AB,'''	"errors"
''','''	"errors"
	"strings"
'''))
B('ab nick of the first','C40',(AB,'''	var (
		found bool
''','''	orig := identity.Nick
	var (
		found bool
'''),(AB,'''	return identity.Nick, err
''','''	return orig, err
'''))
B('ab fold','C40',(AB,'''	id, found := a.identities[nick]
	if !found {
		return nil, ErrNotFound
	}

	return &id, nil
''','''	id, found := a.identities[nick]
	if !found {
		for _, v := range a.identities {
			if strings.EqualFold(v.Nick, nick) {
				return &v, nil
			}
		}
		return nil, ErrNotFound
	}

	return &id, nil
'''),(AB,'''	"errors"
''','''	"errors"
	"strings"
'''))
B('ab find prefix','C40',(AB,'''		if bytes.Equal(v.Identity[:], id[:]) {
			return &v, nil''','''		if bytes.Equal(v.Identity[:16], id[:16]) {
			return &v, nil'''))
B('ab find last','C40',(AB,'''	for _, v := range a.identities {
		if bytes.Equal(v.Identity[:], id[:]) {
			return &v, nil
		}
	}

	return nil, ErrNotFound
''','''	var p *zkidentity.PublicIdentity
	for _, v := range a.identities {
		v := v
		if p = &v; bytes.Equal(v.Identity[:], id[:]) {
			break
		}
	}
	if p == nil {
		return nil, ErrNotFound
	}
	return p, nil
'''))
B('ab del first','C40',(AB,'''		if !bytes.Equal(v.Identity[:], id[:]) {
			continue
		}

		delete(a.identities, k)
''','''		if !bytes.Equal(v.Identity[:], id[:]) && v.Nick != "" {
			continue
		}

		delete(a.identities, k)
'''))
B('ab del nothing','C40',(AB,'''		delete(a.identities, k)
		return nil
	}

	return ErrNotFound
''','''		delete(a.identities, k)
		return nil
	}

	return nil
'''))
Q('ab del helper',(AB,'''	for k, v := range a.identities {
		if !bytes.Equal(v.Identity[:], id[:]) {
			continue
		}

		delete(a.identities, k)
		return nil
	}

	return ErrNotFound
''','''	k, found := a.nickOf(id)
	if !found {
		return ErrNotFound
	}
	delete(a.identities, k)

	return nil
'''),(AB,'''// FindNick ret''','''func (a *AddressBook) nickOf(id [zkidentity.IdentitySize]byte) (string, bool) {
	for k, v := range a.identities {
		if v.Identity == id {
			return k, true
		}
	}
	return "", false
}

// FindNick ret'''))
Q('ab find by nickOf',(AB,'''	for _, v := range a.identities {
		if bytes.Equal(v.Identity[:], id[:]) {
			return &v, nil
		}
	}

	return nil, ErrNotFound
''','''	k, found := a.nickOf(id)
	if !found {
		return nil, ErrNotFound
	}
	v := a.identities[k]

	return &v, nil
'''),(AB,'''// FindNick ret''','''func (a *AddressBook) nickOf(id [zkidentity.IdentitySize]byte) (string, bool) {
	for k, v := range a.identities {
		if v.Identity == id {
			return k, true
		}
	}
	return "", false
}

// FindNick ret'''))
Q('ab add loop condition',(AB,'''	var (
		found bool
		i     zkidentity.PublicIdentity
		err   error
	)

	for {
		i, found = a.identities[identity.Nick]
		if found {
			// if identity is identical do not alter nick
			if bytes.Equal(identity.Identity[:], i.Identity[:]) {
				break
			}
			identity.Nick += "_"
			err = ErrDuplicateNick // mark nick as seen
			continue
		}
		break
	}
	a.identities[identity.Nick] = identity
	return identity.Nick, err
''','''	var err error
	for a.taken(identity) {
		identity.Nick = identity.Nick + "_"
		err = ErrDuplicateNick
	}
	a.identities[identity.Nick] = identity
	return identity.Nick, err
'''),(AB,'''// FindNick ret''','''func (a *AddressBook) taken(id zkidentity.PublicIdentity) bool {
	i, found := a.identities[id.Nick]
	return found && !bytes.Equal(id.Identity[:], i.Identity[:])
}

// FindNick ret'''))
Q('ab add nick variable',(AB,'''	for {
		i, found = a.identities[identity.Nick]
		if found {
			// if identity is identical do not alter nick
			if bytes.Equal(identity.Identity[:], i.Identity[:]) {
				break
			}
			identity.Nick += "_"
			err = ErrDuplicateNick // mark nick as seen
			continue
		}
		break
	}
	a.identities[identity.Nick] = identity
	return identity.Nick, err
''','''	nick := identity.Nick
	for {
		i, found = a.identities[nick]
		if !found || bytes.Equal(identity.Identity[:], i.Identity[:]) {
			break
		}
		nick += "_"
		err = ErrDuplicateNick
	}
	identity.Nick = nick
	a.identities[nick] = identity
	return nick, err
'''))
Q('ab add pointer',(AB,'''func (a *AddressBook) Add(identity zkidentity.PublicIdentity) (string, error) {
	a.Lock()
	defer a.Unlock()

''','''func (a *AddressBook) Add(identity zkidentity.PublicIdentity) (string, error) {
	a.Lock()
	defer a.Unlock()

	return a.add(&identity)
}

func (a *AddressBook) add(identity *zkidentity.PublicIdentity) (string, error) {
'''),(AB,'''	a.identities[identity.Nick] = identity
''','''	a.identities[identity.Nick] = *identity
'''))
Q('ab findnick one line',(AB,'''	id, found := a.identities[nick]
	if !found {
		return nil, ErrNotFound
	}

	return &id, nil
''','''	if id, found := a.identities[nick]; found {
		return &id, nil
	}
	return nil, ErrNotFound
'''))
Q('ab find index',(AB,'''	for _, v := range a.identities {
		if bytes.Equal(v.Identity[:], id[:]) {
			return &v, nil
		}
	}
''','''	for k := range a.identities {
		v := a.identities[k]
		if !bytes.Equal(id[:], v.Identity[:]) {
			continue
		}
		return &v, nil
	}
'''))
Q('ab del nick pointer',(AB,'''	for k, v := range a.identities {
		if !bytes.Equal(v.Identity[:], id[:]) {
			continue
		}

		delete(a.identities, k)
		return nil
	}
''','''	for _, v := range a.identities {
		if bytes.Equal(v.Identity[:], id[:]) {
			delete(a.identities, v.Nick)
			return nil
		}
	}
'''))

KXF='session/kx.go'
B('kx copy hoisted advance only','C16',(KXF,'''	data, ok := secretbox.Open(nil, payload, &kx.readSeq, k)
	incSeq(&kx.readSeq)
	if !ok {''','''	seq := kx.readSeq
	incSeq(&kx.readSeq)
	if len(payload) < secretbox.Overhead {
		return nil, ErrDecrypt
	}
	data, ok := secretbox.Open(nil, payload, &seq, k)
	if !ok {'''))
B('kx copy not advanced','C16',(KXF,'''	payload := secretbox.Seal(nil, data, &kx.writeSeq, k)
	incSeq(&kx.writeSeq)
''','''	seq := kx.writeSeq
	payload := secretbox.Seal(nil, data, &seq, k)
	incSeq(&seq)
'''))
B('kx copy of the advanced','C16',(KXF,'''	payload := secretbox.Seal(nil, data, &kx.writeSeq, k)
	incSeq(&kx.writeSeq)
''','''	seq := kx.writeSeq
	payload := secretbox.Seal(nil, data, &seq, k)
	if len(data) > 32 {
		payload = secretbox.Seal(nil, data[:32], &seq, k)
	}
	incSeq(&kx.writeSeq)
'''))
B('kx other counter copied','C16',(KXF,'''	payload := secretbox.Seal(nil, data, &kx.writeSeq, k)
	incSeq(&kx.writeSeq)
''','''	seq := kx.readSeq
	payload := secretbox.Seal(nil, data, &seq, k)
	incSeq(&kx.writeSeq)
'''))
Q('kx proof helper', ('session/kx.go', '''	h := hmac.New(sha256.New, mk[:])
	for _, p := range parts {
		h.Write(p)
	}
	d := h.Sum(nil)
	err := kx.writeWithKey(d, ek)
''', '''	d := proofOf(mk, parts)
	err := kx.writeWithKey(d, ek)
'''), ('session/kx.go', '''	h := hmac.New(sha256.New, mk[:])
	for _, p := range parts {
		h.Write(p)
	}
	d := h.Sum(nil)
	rd, err := kx.readWithKey(ek)
''', '''	d := proofOf(mk, parts)
	rd, err := kx.readWithKey(ek)
'''), ('session/kx.go', '''// sendProof sends a HMAC''', '''func proofOf(mk *[32]byte, parts [][]byte) []byte {
	h := hmac.New(sha256.New, mk[:])
	for i := range parts {
		h.Write(parts[i])
	}
	return h.Sum(nil)
}

// sendProof sends a HMAC'''))
Q('kx derive helper', ('session/kx.go', '''	d := sha512.New()
	for _, p := range parts {
		d.Write(p[:])
	}
	k := d.Sum(nil)
	a := new([32]byte)
	b := new([32]byte)
	copy(a[:], k[:32])
	copy(b[:], k[32:64])
''', '''	var material []byte
	for _, p := range parts {
		material = append(material, p[:]...)
	}
	k := sha512.Sum512(material)
	a, b := new([32]byte), new([32]byte)
	copy(a[:], k[:])
	copy(b[:], k[32:])
'''))
Q('kx initiate split', ('session/kx.go', '''	// Step 3: Receive c2 encrypted with k1, obtain k2.
	k2, ok := recvCipherAndGetKey(kx, &ephemeralPrivate, k1)
	if ok != 1 {
		return ErrInvalidKx
	}
	// Step 4: Receive the server's ephemeral public key encrypted with k2.
	theirEphemeralPub, err := recvEncryptedIdentity(kx, k2)
	if err != nil {
		return err
	}
	// Step 5: Receive server's initial proof binding the ephemeral keys to k1.
	sp, err := recvProof(kx, k1, k2, ephemeralPublic[:], theirEphemeralPub[:])
	if err != nil {
		return err
	}

''', '''	k2, theirEphemeralPub, sp, err := kx.serverHello(k1)
	if err != nil {
		return err
	}

'''), ('session/kx.go', '''// Initiate performs a key exchange''', '''// serverHello receives what the server answers to our ephemeral key.
func (kx *KX) serverHello(k1 *[32]byte) (*[32]byte, *[sntrup4591761.PublicKeySize]byte, []byte, error) {
	// Step 3: Receive c2 encrypted with k1, obtain k2.
	k2, ok := recvCipherAndGetKey(kx, &ephemeralPrivate, k1)
	if ok != 1 {
		return nil, nil, nil, ErrInvalidKx
	}
	// Step 4: Receive the server's ephemeral public key encrypted with k2.
	pk, err := recvEncryptedIdentity(kx, k2)
	if err != nil {
		return nil, nil, nil, err
	}
	// Step 5: Receive server's initial proof binding the ephemeral keys to k1.
	sp, err := recvProof(kx, k1, k2, ephemeralPublic[:], pk[:])
	if err != nil {
		return nil, nil, nil, err
	}
	return k2, pk, sp, nil
}

// Initiate performs a key exchange'''))
Q('kx ephemeral by value', ('session/kx.go', '''	epk := new([sntrup4591761.PublicKeySize]byte)
	esk := new([sntrup4591761.PrivateKeySize]byte)
	ephemeralMutex.Lock()
	copy(epk[:], ephemeralPublic[:])
	copy(esk[:], ephemeralPrivate[:])
	ephemeralMutex.Unlock()

''', '''	epk, esk := copyEphemeral()

'''), ('session/kx.go', '''// Respond performs a key exchange''', '''// copyEphemeral returns a copy of our current ephemeral keys.
func copyEphemeral() (*[sntrup4591761.PublicKeySize]byte, *[sntrup4591761.PrivateKeySize]byte) {
	ephemeralMutex.Lock()
	defer ephemeralMutex.Unlock()
	pk, sk := ephemeralPublic, ephemeralPrivate
	return &pk, &sk
}

// Respond performs a key exchange'''))
Q('kx read seq first', ('session/kx.go', '''	data, ok := secretbox.Open(nil, payload, &kx.readSeq, k)
	incSeq(&kx.readSeq)
	if !ok {
		return nil, ErrDecrypt
	}
	return data, nil
''', '''	seq := kx.readSeq
	incSeq(&kx.readSeq)
	if data, ok := secretbox.Open(nil, payload, &seq, k); ok {
		return data, nil
	}
	return nil, ErrDecrypt
'''))
Q('kx write nonce helper', ('session/kx.go', '''	payload := secretbox.Seal(nil, data, &kx.writeSeq, k)
	incSeq(&kx.writeSeq)
''', '''	nonce := nextNonce(&kx.writeSeq)
	payload := secretbox.Seal(nil, data, nonce, k)
'''), ('session/kx.go', '''// incSeq increments''', '''// nextNonce returns the current nonce and moves on to the next.
func nextNonce(seq *[24]byte) *[24]byte {
	n := *seq
	incSeq(seq)
	return &n
}

// incSeq increments'''))
Q('ini render helper', ('inidb/inidb.go', '\t// save all records\n\tvar b bytes.Buffer\n\tfmt.Fprintf(&b, "%v\\n", auto)\n\t// the default table has no header and therefore must come first\n\tfor rk, rv := range i.tables[""] {\n\t\tfmt.Fprintf(&b, "%v = %v\\n", rk, rv)\n\t}\n\tfmt.Fprintf(&b, "\\n")\n\tfor tk, tv := range i.tables {\n\t\tif tk == "" {\n\t\t\tcontinue\n\t\t}\n\t\tfmt.Fprintf(&b, "[%v]\\n", tk)\n\t\tfor rk, rv := range tv {\n\t\t\tfmt.Fprintf(&b, "%v = %v\\n", rk, rv)\n\t\t}\n\t\tfmt.Fprintf(&b, "\\n")\n\t}\n', '''	b := i.render()
'''), ('inidb/inidb.go', '''// Save flushes current''', '// render returns the contents of the database file.\nfunc (i *INIDB) render() *bytes.Buffer {\n\tb := new(bytes.Buffer)\n\tfmt.Fprintln(b, auto)\n\t// the default table has no header and therefore must come first\n\twriteRecords(b, i.tables[""])\n\tfor name, records := range i.tables {\n\t\tif name != "" {\n\t\t\tfmt.Fprintf(b, "[%s]\\n", name)\n\t\t\twriteRecords(b, records)\n\t\t}\n\t}\n\treturn b\n}\n\nfunc writeRecords(b *bytes.Buffer, records map[string]string) {\n\tfor k, v := range records {\n\t\tfmt.Fprintf(b, "%s = %s\\n", k, v)\n\t}\n\tfmt.Fprintln(b)\n}\n\n// Save flushes current'))
Q('ini temp write helper', ('inidb/inidb.go', '''	_, err = f.Write(b.Bytes())
	if err == nil {
		err = f.Sync()
	}
	err2 := f.Close()
	if err == nil {
		err = err2
	}
	if err != nil {
		os.Remove(f.Name())
		return fmt.Errorf("could not write temporary file: %v", err)
	}

''', '''	err = writeClose(f, b.Bytes())
	if err != nil {
		os.Remove(f.Name())
		return fmt.Errorf("could not write temporary file: %v", err)
	}

'''), ('inidb/inidb.go', '''// Save flushes current''', '''// writeClose puts data on disk and closes the file.
func writeClose(f *os.File, data []byte) error {
	_, err := f.Write(data)
	if err != nil {
		f.Close()
		return err
	}
	if err = f.Sync(); err != nil {
		f.Close()
		return err
	}
	return f.Close()
}

// Save flushes current'''))
Q('ini backup helper', ('inidb/inidb.go', '''	// backup original, it remains in place until it is replaced
	if !i.created {
		backup := fmt.Sprintf("%v.%v",
			i.filename,
			time.Now().Format("20060102.150405.000000000"))
		original, err := ioutil.ReadFile(i.filename)
		if err == nil {
			err = ioutil.WriteFile(backup, original, 0600)
		}
		if err != nil {
			return fmt.Errorf("could not backup original file: %v",
				err)
		}
	}

''', '''	// backup original, it remains in place until it is replaced
	if err = i.backup(); err != nil {
		return fmt.Errorf("could not backup original file: %v", err)
	}

'''), ('inidb/inidb.go', '''// Save flushes current''', '''func (i *INIDB) backup() error {
	if i.created {
		return nil
	}
	original, err := ioutil.ReadFile(i.filename)
	if err != nil {
		return err
	}
	return ioutil.WriteFile(i.filename+"."+
		time.Now().Format("20060102.150405.000000000"), original, 0600)
}

// Save flushes current'''))
Q('ini table helper', ('inidb/inidb.go', '''	s, ok := i.tables[table]
	if !ok {
		return ErrNotFound
	}
	if !validKey(key) || !validValue(value) {
		return ErrInvalid
	}
	s[key] = value
	i.dirty = true

	return nil
''', '''	return i.change(table, func(s ini.Section) error {
		if !validKey(key) || !validValue(value) {
			return ErrInvalid
		}
		s[key] = value
		return nil
	})
'''), ('inidb/inidb.go', '''	s, ok := i.tables[table]
	if !ok {
		return ErrNotFound
	}

	delete(s, key)
	i.dirty = true

	return nil
''', '''	return i.change(table, func(s ini.Section) error {
		delete(s, key)
		return nil
	})
'''), ('inidb/inidb.go', '''// Set creates/overwrites''', '''// change runs f on an existing table.  This function must be called with the
// mutex held.
func (i *INIDB) change(table string, f func(ini.Section) error) error {
	s, ok := i.tables[table]
	if !ok {
		return ErrNotFound
	}
	err := f(s)
	if err == nil {
		i.dirty = true
	}
	return err
}

// Set creates/overwrites'''))
Q('ini valid any', ('inidb/inidb.go', '\treturn strings.TrimSpace(value) == value &&\n\t\t!strings.Contains(value, "\\n")\n', "\tif strings.IndexByte(value, '\\n') >= 0 {\n\t\treturn false\n\t}\n\treturn value == strings.TrimSpace(value)\n"))
Q('acc online entry helper', ('zkserver/account/account.go', '''	a.Lock()
	_, found := a.online[who]
	if found {
		a.Unlock()
		return ErrAlreadyOnline{
			err: fmt.Errorf("already online: %v ",
				hex.EncodeToString(who[:])),
		}
	}

	dn := diskNotification{
		ntfn:      ntfn,
		work:      make(chan struct{}, 1),
		quit:      make(chan struct{}),
		processed: make(map[string]struct{}),
	}
	a.online[who] = dn
	a.Unlock()

''', '''	dn, err := a.enter(who, ntfn)
	if err != nil {
		return err
	}

'''), ('zkserver/account/account.go', '''// Online notifies Account that''', '''// enter lists who as online.
func (a *Account) enter(who [zkidentity.IdentitySize]byte, ntfn chan *Notification) (*diskNotification, error) {
	a.Lock()
	defer a.Unlock()

	if _, found := a.online[who]; found {
		return nil, ErrAlreadyOnline{
			err: fmt.Errorf("already online: %v ",
				hex.EncodeToString(who[:])),
		}
	}

	dn := diskNotification{
		ntfn:      ntfn,
		work:      make(chan struct{}, 1),
		quit:      make(chan struct{}),
		processed: make(map[string]struct{}),
	}
	a.online[who] = dn

	return &dn, nil
}

// Online notifies Account that'''))
Q('acc push loop method', ('zkserver/account/account.go', '''	go func() {
		// first time around start delivering, unless told to already
		select {
		case dn.work <- struct{}{}:
		default:
		}

		for {
			select {
			case <-dn.quit:
				return

			case <-dn.work:
			}

			a.Lock()
			fi, err := ioutil.ReadDir(cache)
			if err != nil {
				a.Unlock()
				dn.send(&Notification{Error: err})
				continue
			}
			a.Unlock()

			for _, v := range fi {
				a.Lock()
				_, found := dn.processed[v.Name()]
				if found {
					a.Unlock()
					continue
				}
				dn.processed[v.Name()] = struct{}{}
				a.Unlock()

				filename := path.Join(cache, v.Name())
				f, err := os.Open(filename)
				if err != nil {
					dn.send(&Notification{
						Error: fmt.Errorf("%v: %v",
							filename, err)})
					continue
				}

				var dm diskMessage
				_, err = xdr.Unmarshal(f, &dm)
				// Special error handling because of prior
				// upgrade where we added Cleartext to the
				// diskMessage. A short read is therefore
				// an error we must ignore.
				if err != nil {
					var uerr *xdr.UnmarshalError
					if !errors.As(err, &uerr) ||
						uerr.ErrorCode != xdr.ErrIO ||
						!errors.Is(uerr.Err, io.EOF) {

						f.Close()
						dn.send(&Notification{
							Error: fmt.Errorf("%v: unmarshal %v",
								filename, err),
						})
						continue
					}
				}
				f.Close()

				// notify and block
				dn.send(&Notification{
					To:         who,
					From:       dm.From,
					Received:   dm.Received,
					Payload:    dm.Payload,
					Cleartext:  dm.Cleartext,
					Identifier: v.Name(),
				})
			}
		}
	}()

''', '''	go a.push(who, cache, &dn)

'''), ('zkserver/account/account.go', '''func (dn *diskNotification) send(''', '''// push sends what is in cache whenever there is work.
func (a *Account) push(who [zkidentity.IdentitySize]byte, cache string, dn *diskNotification) {
	// first time around start delivering, unless told to already
	select {
	case dn.work <- struct{}{}:
	default:
	}

	for {
		select {
		case <-dn.quit:
			return

		case <-dn.work:
		}

		a.Lock()
		fi, err := ioutil.ReadDir(cache)
		if err != nil {
			a.Unlock()
			dn.send(&Notification{Error: err})
			continue
		}
		a.Unlock()

		for _, v := range fi {
			a.Lock()
			_, found := dn.processed[v.Name()]
			if found {
				a.Unlock()
				continue
			}
			dn.processed[v.Name()] = struct{}{}
			a.Unlock()

			filename := path.Join(cache, v.Name())
			f, err := os.Open(filename)
			if err != nil {
				dn.send(&Notification{
					Error: fmt.Errorf("%v: %v",
						filename, err)})
				continue
			}

			var dm diskMessage
			_, err = xdr.Unmarshal(f, &dm)
			// Special error handling because of prior
			// upgrade where we added Cleartext to the
			// diskMessage. A short read is therefore
			// an error we must ignore.
			if err != nil {
				var uerr *xdr.UnmarshalError
				if !errors.As(err, &uerr) ||
					uerr.ErrorCode != xdr.ErrIO ||
					!errors.Is(uerr.Err, io.EOF) {

					f.Close()
					dn.send(&Notification{
						Error: fmt.Errorf("%v: unmarshal %v",
							filename, err),
					})
					continue
				}
			}
			f.Close()

			// notify and block
			dn.send(&Notification{
				To:         who,
				From:       dm.From,
				Received:   dm.Received,
				Payload:    dm.Payload,
				Cleartext:  dm.Cleartext,
				Identifier: v.Name(),
			})
		}
	}
}

func (dn *diskNotification) send('''))
Q('acc deliver notify helper', ('zkserver/account/account.go', '''	// notify
	dn, found := a.online[to]
	if !found {
		return fullPath, nil
	}

	// notify producer that there is work
	select {
	case dn.work <- struct{}{}:
	default:
	}

''', '''	a.wake(to)

'''), ('zkserver/account/account.go', '''// Deliver physically''', '''// wake tells the producer of who that there is work.  This function must be
// called with the mutex held.
func (a *Account) wake(who [zkidentity.IdentitySize]byte) {
	if dn, found := a.online[who]; found {
		select {
		case dn.work <- struct{}{}:
		default:
		}
	}
}

// Deliver physically'''))
Q('acc listed helper', ('zkserver/account/account.go', '''	accountName := a.accountDir(id)
	_, err := os.Stat(accountName)
	if err != nil {
		return fmt.Errorf("account not found")
	}
	user, err := inidb.New(a.accountFile(id, UserIdentityFilename), false, 10)
	if err != nil {
		return fmt.Errorf("could not open userdb: %v", err)
	}

	err = user.Set("", "listed", "1")
	if err != nil {
		return fmt.Errorf("could not list user: %v", err)
	}
	err = user.Save()
	if err != nil {
		return fmt.Errorf("could not save user: %v", err)
	}

	return nil
}
''', '''	return a.changeUser(id, func(user *inidb.INIDB) error {
		err := user.Set("", "listed", "1")
		if err != nil {
			return fmt.Errorf("could not list user: %v", err)
		}
		return nil
	})
}
'''), ('zkserver/account/account.go', '''	accountName := a.accountDir(id)
	_, err := os.Stat(accountName)
	if err != nil {
		return fmt.Errorf("account not found")
	}
	user, err := inidb.New(a.accountFile(id, UserIdentityFilename), false, 10)
	if err != nil {
		return fmt.Errorf("could not open userdb: %v", err)
	}

	err = user.Del("", "listed")
	if err != nil {
		return fmt.Errorf("could not unlist user: %v", err)
	}
	err = user.Save()
	if err != nil {
		return fmt.Errorf("could not save user: %v", err)
	}

	return nil
}
''', '''	return a.changeUser(id, func(user *inidb.INIDB) error {
		err := user.Del("", "listed")
		if err != nil {
			return fmt.Errorf("could not unlist user: %v", err)
		}
		return nil
	})
}
'''), ('zkserver/account/account.go', '''func (a *Account) Push(''', '''// changeUser changes and saves the user database of an existing account.
func (a *Account) changeUser(id [zkidentity.IdentitySize]byte, f func(*inidb.INIDB) error) error {
	_, err := os.Stat(a.accountDir(id))
	if err != nil {
		return fmt.Errorf("account not found")
	}
	user, err := inidb.New(a.accountFile(id, UserIdentityFilename), false, 10)
	if err != nil {
		return fmt.Errorf("could not open userdb: %v", err)
	}
	if err = f(user); err != nil {
		return err
	}
	if err = user.Save(); err != nil {
		return fmt.Errorf("could not save user: %v", err)
	}

	return nil
}

func (a *Account) Push('''))
Q('acc find load helper', ('zkserver/account/account.go', '''		listed, err := user.Get("", "listed")
		if err == nil && listed == "1" {
			b64, err := user.Get("", "identity")
			if err != nil {
				return nil, fmt.Errorf("could not get user: %v", err)
			}
			blob, err := base64.StdEncoding.DecodeString(b64)
			if err != nil {
				return nil, fmt.Errorf("could not decode user: %v", err)
			}
			id := new(zkidentity.PublicIdentity)
			br := bytes.NewReader(blob)
			_, err = xdr.Unmarshal(br, &id)
			if err != nil {
				return nil, fmt.Errorf("could not unmarshal user: %v", err)
			}
			if id.Nick == nick {
				return id, nil
			}
		}
''', '''		id, err := listedIdentity(user)
		if err != nil {
			return nil, err
		}
		if id != nil && id.Nick == nick {
			return id, nil
		}
'''), ('zkserver/account/account.go', '''func (a *Account) Find(''', '''// listedIdentity returns the identity of a user or nil if it isn't listed.
func listedIdentity(user *inidb.INIDB) (*zkidentity.PublicIdentity, error) {
	listed, err := user.Get("", "listed")
	if err != nil || listed != "1" {
		return nil, nil
	}
	b64, err := user.Get("", "identity")
	if err != nil {
		return nil, fmt.Errorf("could not get user: %v", err)
	}
	blob, err := base64.StdEncoding.DecodeString(b64)
	if err != nil {
		return nil, fmt.Errorf("could not decode user: %v", err)
	}
	var id zkidentity.PublicIdentity
	_, err = xdr.Unmarshal(bytes.NewReader(blob), &id)
	if err != nil {
		return nil, fmt.Errorf("could not unmarshal user: %v", err)
	}
	return &id, nil
}

func (a *Account) Find('''))
Q('acc user db path helper', ('zkserver/account/account.go', '''	user, err := inidb.New(a.accountFile(pid.Identity,
		UserIdentityFilename), true, 10)
	if err != nil && !errors.Is(err, inidb.ErrCreated) {
		return fmt.Errorf("could not open userdb: %v", err)
	}
''', '''	user, err := a.createUser(pid.Identity)
	if err != nil {
		return err
	}
'''), ('zkserver/account/account.go', '''// createAccount creates all''', '''func (a *Account) createUser(id [zkidentity.IdentitySize]byte) (*inidb.INIDB, error) {
	user, err := inidb.New(a.accountFile(id, UserIdentityFilename), true, 10)
	switch {
	case err == nil, errors.Is(err, inidb.ErrCreated):
		return user, nil
	}
	return nil, fmt.Errorf("could not open userdb: %v", err)
}

// createAccount creates all'''))
Q('id digest helper', ('zkidentity/zkidentity.go', '''	d := sha256.New()
	d.Write([]byte(fi.Public.Name))
	d.Write([]byte(fi.Public.Nick))
	d.Write(fi.Public.SigKey[:])
	d.Write(fi.Public.Key[:])
	d.Write(fi.Public.Identity[:])
	copy(fi.Public.Digest[:], d.Sum(nil))

''', '''	fi.Public.Digest = fi.Public.digest()

'''), ('zkidentity/zkidentity.go', '''	d := sha256.New()
	d.Write([]byte(p.Name))
	d.Write([]byte(p.Nick))
	d.Write(p.SigKey[:])
	d.Write(p.Key[:])
	d.Write(p.Identity[:])
	if !bytes.Equal(p.Digest[:], d.Sum(nil)) {
		return false
	}
''', '''	if p.digest() != p.Digest {
		return false
	}
'''), ('zkidentity/zkidentity.go', '''func (p *PublicIdentity) Verify()''', '''// digest returns what is signed.
func (p *PublicIdentity) digest() (sum [sha256.Size]byte) {
	d := sha256.New()
	for _, b := range [][]byte{
		[]byte(p.Name),
		[]byte(p.Nick),
		p.SigKey[:],
		p.Key[:],
		p.Identity[:],
	} {
		d.Write(b)
	}
	copy(sum[:], d.Sum(nil))
	return sum
}

func (p *PublicIdentity) Verify()'''))
Q('id digest by sum', ('zkidentity/zkidentity.go', '''	d := sha256.New()
	d.Write([]byte(fi.Public.Name))
	d.Write([]byte(fi.Public.Nick))
	d.Write(fi.Public.SigKey[:])
	d.Write(fi.Public.Key[:])
	d.Write(fi.Public.Identity[:])
	copy(fi.Public.Digest[:], d.Sum(nil))

''', '''	fi.Public.Digest = fi.Public.digest()

'''), ('zkidentity/zkidentity.go', '''	d := sha256.New()
	d.Write([]byte(p.Name))
	d.Write([]byte(p.Nick))
	d.Write(p.SigKey[:])
	d.Write(p.Key[:])
	d.Write(p.Identity[:])
	if !bytes.Equal(p.Digest[:], d.Sum(nil)) {
		return false
	}
''', '''	digest := p.digest()
	if !bytes.Equal(p.Digest[:], digest[:]) {
		return false
	}
'''), ('zkidentity/zkidentity.go', '''func (p *PublicIdentity) Verify()''', '''// digest returns what is signed.
func (p *PublicIdentity) digest() [sha256.Size]byte {
	d := sha256.New()
	io.WriteString(d, p.Name)
	io.WriteString(d, p.Nick)
	d.Write(p.SigKey[:])
	d.Write(p.Key[:])
	d.Write(p.Identity[:])
	var sum [sha256.Size]byte
	d.Sum(sum[:0])
	return sum
}

func (p *PublicIdentity) Verify()'''), ('zkidentity/zkidentity.go', '''	"fmt"
''', '''	"fmt"
	"io"
'''))
Q('id sign helper', ('zkidentity/zkidentity.go', '''	signature := ed25519.Sign(fi.PrivateSigKey[:], fi.Public.Digest[:])
	copy(fi.Public.Signature[:], signature)
''', '''	fi.Public.Signature = fi.SignMessage(fi.Public.Digest[:])
'''))
Q('ra mix keys helper', ('ratchet/ratchet.go', '''		sha := sha256.New()
		sha.Write(rootKeyUpdateLabel)
		sha.Write(r.rootKey[:])
		sha.Write(sharedKey)
		sha.Sum(keyMaterial[:0])
		h := hmac.New(sha256.New, keyMaterial[:])
''', '''		h := r.rootMAC(sharedKey)
'''), ('ratchet/ratchet.go', '''		var keyMaterial [32]byte
		sharedKey, err''', '''		sharedKey, err'''), ('ratchet/ratchet.go', '''	sha := sha256.New()
	sha.Write(rootKeyUpdateLabel)
	sha.Write(r.rootKey[:])
	sha.Write(sharedKey)

	var rootKeyHMAC hash.Hash

	sha.Sum(keyMaterial[:0])
	rootKeyHMAC = hmac.New(sha256.New, keyMaterial[:])
''', '''	rootKeyHMAC := r.rootMAC(sharedKey)
'''), ('ratchet/ratchet.go', '''	var dhPublic, rootKey, chainKey, keyMaterial [32]byte
''', '''	var dhPublic, rootKey, chainKey [32]byte
'''), ('ratchet/ratchet.go', '''// Encrypt acts like append()''', '''// rootMAC returns what keys of the next step are derived with.
func (r *Ratchet) rootMAC(shared []byte) hash.Hash {
	sha := sha256.New()
	sha.Write(rootKeyUpdateLabel)
	sha.Write(r.rootKey[:])
	sha.Write(shared)
	return hmac.New(sha256.New, sha.Sum(nil))
}

// Encrypt acts like append()'''))
Q('ra send step helper', ('ratchet/ratchet.go', '''	if r.ratchet {
		r.randBytes(r.sendRatchetPrivate[:])
		copy(r.sendHeaderKey[:], r.nextSendHeaderKey[:])

		var keyMaterial [32]byte
		sharedKey, err := curve25519.X25519(r.sendRatchetPrivate[:], r.recvRatchetPublic[:])
		if err != nil {
			return nil, err
		}
		sha := sha256.New()
		sha.Write(rootKeyUpdateLabel)
		sha.Write(r.rootKey[:])
		sha.Write(sharedKey)
		sha.Sum(keyMaterial[:0])
		h := hmac.New(sha256.New, keyMaterial[:])
		deriveKey(&r.rootKey, rootKeyLabel, h)
		deriveKey(&r.nextSendHeaderKey, sendHeaderKeyLabel, h)
		deriveKey(&r.sendChainKey, chainKeyLabel, h)
		r.prevSendCount, r.sendCount = r.sendCount, 0
		r.ratchet = false
	}

''', '''	if err := r.stepSend(); err != nil {
		return nil, err
	}

'''), ('ratchet/ratchet.go', '''// Encrypt acts like append()''', '''// stepSend moves on to a new sending chain if it is our turn.
func (r *Ratchet) stepSend() error {
	if !r.ratchet {
		return nil
	}
	r.randBytes(r.sendRatchetPrivate[:])
	copy(r.sendHeaderKey[:], r.nextSendHeaderKey[:])

	var keyMaterial [32]byte
	sharedKey, err := curve25519.X25519(r.sendRatchetPrivate[:], r.recvRatchetPublic[:])
	if err != nil {
		return err
	}
	sha := sha256.New()
	sha.Write(rootKeyUpdateLabel)
	sha.Write(r.rootKey[:])
	sha.Write(sharedKey)
	sha.Sum(keyMaterial[:0])
	h := hmac.New(sha256.New, keyMaterial[:])
	deriveKey(&r.rootKey, rootKeyLabel, h)
	deriveKey(&r.nextSendHeaderKey, sendHeaderKeyLabel, h)
	deriveKey(&r.sendChainKey, chainKeyLabel, h)
	r.prevSendCount = r.sendCount
	r.sendCount = 0
	r.ratchet = false

	return nil
}

// Encrypt acts like append()'''))
Q('ra header helper', ('ratchet/ratchet.go', '''	binary.LittleEndian.PutUint32(header[0:4], r.sendCount)
	binary.LittleEndian.PutUint32(header[4:8], r.prevSendCount)
	copy(header[8:], sendRatchetPublic[:])
	copy(header[nonceInHeaderOffset:], messageNonce[:])
''', '''	r.fillHeader(&header, &sendRatchetPublic, &messageNonce)
'''), ('ratchet/ratchet.go', '''// Encrypt acts like append()''', '''func (r *Ratchet) fillHeader(header *[headerSize]byte, public *[32]byte, nonce *[24]byte) {
	binary.LittleEndian.PutUint32(header[0:4], r.sendCount)
	binary.LittleEndian.PutUint32(header[4:8], r.prevSendCount)
	copy(header[8:], public[:])
	copy(header[nonceInHeaderOffset:], nonce[:])
}

// Encrypt acts like append()'''))
Q('ra decrypt current helper', ('ratchet/ratchet.go', '''		messageNum := binary.LittleEndian.Uint32(header[:4])
		provisionalChainKey, messageKey, savedKeys, err := r.saveKeys(&r.recvHeaderKey, &r.recvChainKey, messageNum, r.recvCount)
		if err != nil {
			return nil, err
		}

		copy(nonce[:], header[nonceInHeaderOffset:])
		msg, ok := secretbox.Open(nil, sealedMessage, &nonce, &messageKey)
		if !ok {
			return nil, errors.New("ratchet: corrupt message")
		}

		copy(r.recvChainKey[:], provisionalChainKey[:])
		r.mergeSavedKeys(savedKeys)
		r.recvCount = messageNum + 1
		return msg, nil
	}

''', '''		return r.decryptCurrent(header, sealedMessage)
	}

'''), ('ratchet/ratchet.go', '''func (r *Ratchet) Decrypt(''', '''// decryptCurrent decrypts a message of the current chain.
func (r *Ratchet) decryptCurrent(header, sealed []byte) ([]byte, error) {
	num := binary.LittleEndian.Uint32(header[:4])
	chainKey, key, saved, err := r.saveKeys(&r.recvHeaderKey, &r.recvChainKey, num, r.recvCount)
	if err != nil {
		return nil, err
	}

	var nonce [24]byte
	copy(nonce[:], header[nonceInHeaderOffset:])
	msg, ok := secretbox.Open(nil, sealed, &nonce, &key)
	if !ok {
		return nil, errors.New("ratchet: corrupt message")
	}

	r.recvChainKey = chainKey
	r.mergeSavedKeys(saved)
	r.recvCount = num + 1
	return msg, nil
}

func (r *Ratchet) Decrypt('''))
Q('ra open helper', ('ratchet/ratchet.go', '''		msg, ok := secretbox.Open(nil, sealedMessage, &nonce, &messageKey)
		if !ok {
			return nil, errors.New("ratchet: corrupt message")
		}
''', '''		msg, err := openMessage(sealedMessage, &nonce, &messageKey)
		if err != nil {
			return nil, err
		}
'''), ('ratchet/ratchet.go', '''	msg, ok = secretbox.Open(nil, sealedMessage, &nonce, &messageKey)
	if !ok {
		return nil, errors.New("ratchet: corrupt message")
	}
''', '''	msg, err = openMessage(sealedMessage, &nonce, &messageKey)
	if err != nil {
		return nil, err
	}
'''), ('ratchet/ratchet.go', '''func (r *Ratchet) Decrypt(''', '''func openMessage(sealed []byte, nonce *[24]byte, key *[32]byte) ([]byte, error) {
	msg, ok := secretbox.Open(nil, sealed, nonce, key)
	if !ok {
		return nil, errors.New("ratchet: corrupt message")
	}
	return msg, nil
}

func (r *Ratchet) Decrypt('''))
Q('ra commit by assignment', ('ratchet/ratchet.go', '''	copy(r.rootKey[:], rootKey[:])
	copy(r.recvChainKey[:], provisionalChainKey[:])
	copy(r.recvHeaderKey[:], r.nextRecvHeaderKey[:])
	deriveKey(&r.nextRecvHeaderKey, sendHeaderKeyLabel, rootKeyHMAC)
	for i := range r.sendRatchetPrivate {
		r.sendRatchetPrivate[i] = 0
	}
	copy(r.recvRatchetPublic[:], dhPublic[:])
''', '''	r.rootKey = rootKey
	r.recvChainKey = provisionalChainKey
	r.recvHeaderKey = r.nextRecvHeaderKey
	deriveKey(&r.nextRecvHeaderKey, sendHeaderKeyLabel, rootKeyHMAC)
	r.sendRatchetPrivate = [32]byte{}
	r.recvRatchetPublic = dhPublic
'''))
Q('ra unmarshal keys table', ('ratchet/ratchet.go', '''	if !unmarshalKey(&r.rootKey, s.RootKey) ||
		!unmarshalKey(&r.sendHeaderKey, s.SendHeaderKey) ||
		!unmarshalKey(&r.recvHeaderKey, s.RecvHeaderKey) ||
		!unmarshalKey(&r.nextSendHeaderKey, s.NextSendHeaderKey) ||
		!unmarshalKey(&r.nextRecvHeaderKey, s.NextRecvHeaderKey) ||
		!unmarshalKey(&r.sendChainKey, s.SendChainKey) ||
		!unmarshalKey(&r.recvChainKey, s.RecvChainKey) ||
		!unmarshalKey(&r.sendRatchetPrivate, s.SendRatchetPrivate) ||
		!unmarshalKey(&r.recvRatchetPublic, s.RecvRatchetPublic) {
		return badSerialisedKeyLengthErr
	}

''', '''	for _, k := range []struct {
		dst *[32]byte
		src []byte
	}{
		{&r.rootKey, s.RootKey},
		{&r.sendHeaderKey, s.SendHeaderKey},
		{&r.recvHeaderKey, s.RecvHeaderKey},
		{&r.nextSendHeaderKey, s.NextSendHeaderKey},
		{&r.nextRecvHeaderKey, s.NextRecvHeaderKey},
		{&r.sendChainKey, s.SendChainKey},
		{&r.recvChainKey, s.RecvChainKey},
		{&r.sendRatchetPrivate, s.SendRatchetPrivate},
		{&r.recvRatchetPublic, s.RecvRatchetPublic},
	} {
		if !unmarshalKey(k.dst, k.src) {
			return badSerialisedKeyLengthErr
		}
	}

'''))
Q('ra unmarshal half helper', ('ratchet/ratchet.go', '''	if len(s.MyHalf) > 0 {
		if r.MyHalf == nil {
			r.MyHalf = new([32]byte)
		}
		if !unmarshalKey(r.MyHalf, s.MyHalf) {
			return badSerialisedKeyLengthErr
		}
	} else {
		r.MyHalf = nil
	}
	if len(s.TheirHalf) > 0 {
		if r.TheirHalf == nil {
			r.TheirHalf = new([32]byte)
		}
		if !unmarshalKey(r.TheirHalf, s.TheirHalf) {
			return badSerialisedKeyLengthErr
		}
	} else {
		r.TheirHalf = nil
	}

''', '''	var ok bool
	if r.MyHalf, ok = unmarshalHalf(s.MyHalf); !ok {
		return badSerialisedKeyLengthErr
	}
	if r.TheirHalf, ok = unmarshalHalf(s.TheirHalf); !ok {
		return badSerialisedKeyLengthErr
	}

'''), ('ratchet/ratchet.go', '''var badSerialisedKeyLengthErr''', '''// unmarshalHalf returns nil if there is no half.
func unmarshalHalf(src []byte) (*[32]byte, bool) {
	if len(src) == 0 {
		return nil, true
	}
	half := new([32]byte)
	return half, unmarshalKey(half, src)
}

var badSerialisedKeyLengthErr'''))
Q('ra saved keys helper', ('ratchet/ratchet.go', '''		messageKeys := make(map[uint32]savedKey)
		for _, messageKey := range saved.MessageKeys {
			var savedKey savedKey
			if !unmarshalKey(&savedKey.key, messageKey.Key) {
				return badSerialisedKeyLengthErr
			}
			savedKey.timestamp = time.Unix(messageKey.CreationTime, 0)
			messageKeys[messageKey.Num] = savedKey
		}

''', '''		messageKeys, err := unmarshalSaved(saved.MessageKeys)
		if err != nil {
			return err
		}
'''), ('ratchet/ratchet.go', '''var badSerialisedKeyLengthErr''', '''func unmarshalSaved(keys []disk.RatchetState_SavedKeys_MessageKey) (map[uint32]savedKey, error) {
	m := make(map[uint32]savedKey, len(keys))
	for i := range keys {
		k := savedKey{timestamp: time.Unix(keys[i].CreationTime, 0)}
		if !unmarshalKey(&k.key, keys[i].Key) {
			return nil, badSerialisedKeyLengthErr
		}
		m[keys[i].Num] = k
	}
	return m, nil
}

var badSerialisedKeyLengthErr'''))
Q('ra trim helper', ('ratchet/ratchet.go', '''		keys := make([]disk.RatchetState_SavedKeys_MessageKey, 0, len(messageKeys))
		for messageNum, savedKey := range messageKeys {
			if now.Sub(savedKey.timestamp) > lifetime {
				continue
			}
			keys = append(keys, disk.RatchetState_SavedKeys_MessageKey{
				Num:          messageNum,
				Key:          dup32(&savedKey.key),
				CreationTime: savedKey.timestamp.Unix(),
			})
		}
''', '''		var keys []disk.RatchetState_SavedKeys_MessageKey
		for messageNum, savedKey := range messageKeys {
			if age := now.Sub(savedKey.timestamp); age <= lifetime {
				keys = append(keys, disk.RatchetState_SavedKeys_MessageKey{
					Num:          messageNum,
					Key:          dup32(&savedKey.key),
					CreationTime: savedKey.timestamp.Unix(),
				})
			}
		}
'''))
Q('tag inuse helper', ('tagstack/tagstack.go', '''	if s.at < len(s.stack) {
		if x >= uint32(len(s.stack)) {
			return ErrInvalid
		}
		for _, v := range s.stack[:s.at] {
			if v == x {
				return ErrInvalid
			}
		}
		s.stack[s.at] = x
		s.at++
		return nil
	}

	return ErrOverflow
}
''', '''	switch {
	case s.at >= len(s.stack):
		return ErrOverflow
	case x >= uint32(len(s.stack)), s.free(x):
		return ErrInvalid
	}
	s.stack[s.at] = x
	s.at++
	return nil
}

// free returns whether a tag is on the stack.
func (s *TagStack) free(x uint32) bool {
	for _, v := range s.stack[:s.at] {
		if v == x {
			return true
		}
	}
	return false
}
'''))
B('ini table helper, no mark', 'C25', ('inidb/inidb.go', '\ts, ok := i.tables[table]\n\tif !ok {\n\t\treturn ErrNotFound\n\t}\n\tif !validKey(key) || !validValue(value) {\n\t\treturn ErrInvalid\n\t}\n\ts[key] = value\n\ti.dirty = true\n\n\treturn nil\n', '\treturn i.change(table, func(s ini.Section) error {\n\t\tif !validKey(key) || !validValue(value) {\n\t\t\treturn ErrInvalid\n\t\t}\n\t\ts[key] = value\n\t\treturn nil\n\t})\n'), ('inidb/inidb.go', '\ts, ok := i.tables[table]\n\tif !ok {\n\t\treturn ErrNotFound\n\t}\n\n\tdelete(s, key)\n\ti.dirty = true\n\n\treturn nil\n', '\treturn i.change(table, func(s ini.Section) error {\n\t\tdelete(s, key)\n\t\treturn nil\n\t})\n'), ('inidb/inidb.go', '// Set creates/overwrites', '// change runs f on an existing table.  This function must be called with the\n// mutex held.\nfunc (i *INIDB) change(table string, f func(ini.Section) error) error {\n\ts, ok := i.tables[table]\n\tif !ok {\n\t\treturn ErrNotFound\n\t}\n\terr := f(s)\n\treturn err\n}\n\n// Set creates/overwrites'))
B('ini table helper, mark when failed', 'C25', ('inidb/inidb.go', '\ts, ok := i.tables[table]\n\tif !ok {\n\t\treturn ErrNotFound\n\t}\n\tif !validKey(key) || !validValue(value) {\n\t\treturn ErrInvalid\n\t}\n\ts[key] = value\n\ti.dirty = true\n\n\treturn nil\n', '\treturn i.change(table, func(s ini.Section) error {\n\t\tif !validKey(key) || !validValue(value) {\n\t\t\treturn ErrInvalid\n\t\t}\n\t\ts[key] = value\n\t\treturn nil\n\t})\n'), ('inidb/inidb.go', '\ts, ok := i.tables[table]\n\tif !ok {\n\t\treturn ErrNotFound\n\t}\n\n\tdelete(s, key)\n\ti.dirty = true\n\n\treturn nil\n', '\treturn i.change(table, func(s ini.Section) error {\n\t\tdelete(s, key)\n\t\treturn nil\n\t})\n'), ('inidb/inidb.go', '// Set creates/overwrites', '// change runs f on an existing table.  This function must be called with the\n// mutex held.\nfunc (i *INIDB) change(table string, f func(ini.Section) error) error {\n\ts, ok := i.tables[table]\n\tif !ok {\n\t\treturn ErrNotFound\n\t}\n\terr := f(s)\n\tif err != nil {\n\t\ti.dirty = true\n\t}\n\treturn err\n}\n\n// Set creates/overwrites'))
B('ini valid any, not first', 'C35', ('inidb/inidb.go', '\treturn strings.TrimSpace(value) == value &&\n\t\t!strings.Contains(value, "\\n")\n', "\tif strings.IndexByte(value, '\\n') > 0 {\n\t\treturn false\n\t}\n\treturn value == strings.TrimSpace(value)\n"))
B('ini valid any, other way', 'C35', ('inidb/inidb.go', '\treturn strings.TrimSpace(value) == value &&\n\t\t!strings.Contains(value, "\\n")\n', "\tif strings.IndexByte(value, '\\n') < -1 {\n\t\treturn false\n\t}\n\treturn value == strings.TrimSpace(value)\n"))
B('acc listed helper, never saved', 'C25', ('zkserver/account/account.go', '\taccountName := a.accountDir(id)\n\t_, err := os.Stat(accountName)\n\tif err != nil {\n\t\treturn fmt.Errorf("account not found")\n\t}\n\tuser, err := inidb.New(a.accountFile(id, UserIdentityFilename), false, 10)\n\tif err != nil {\n\t\treturn fmt.Errorf("could not open userdb: %v", err)\n\t}\n\n\terr = user.Set("", "listed", "1")\n\tif err != nil {\n\t\treturn fmt.Errorf("could not list user: %v", err)\n\t}\n\terr = user.Save()\n\tif err != nil {\n\t\treturn fmt.Errorf("could not save user: %v", err)\n\t}\n\n\treturn nil\n}\n', '\treturn a.changeUser(id, func(user *inidb.INIDB) error {\n\t\terr := user.Set("", "listed", "1")\n\t\tif err != nil {\n\t\t\treturn fmt.Errorf("could not list user: %v", err)\n\t\t}\n\t\treturn nil\n\t})\n}\n'), ('zkserver/account/account.go', '\taccountName := a.accountDir(id)\n\t_, err := os.Stat(accountName)\n\tif err != nil {\n\t\treturn fmt.Errorf("account not found")\n\t}\n\tuser, err := inidb.New(a.accountFile(id, UserIdentityFilename), false, 10)\n\tif err != nil {\n\t\treturn fmt.Errorf("could not open userdb: %v", err)\n\t}\n\n\terr = user.Del("", "listed")\n\tif err != nil {\n\t\treturn fmt.Errorf("could not unlist user: %v", err)\n\t}\n\terr = user.Save()\n\tif err != nil {\n\t\treturn fmt.Errorf("could not save user: %v", err)\n\t}\n\n\treturn nil\n}\n', '\treturn a.changeUser(id, func(user *inidb.INIDB) error {\n\t\terr := user.Del("", "listed")\n\t\tif err != nil {\n\t\t\treturn fmt.Errorf("could not unlist user: %v", err)\n\t\t}\n\t\treturn nil\n\t})\n}\n'), ('zkserver/account/account.go', 'func (a *Account) Push(', '// changeUser changes and saves the user database of an existing account.\nfunc (a *Account) changeUser(id [zkidentity.IdentitySize]byte, f func(*inidb.INIDB) error) error {\n\t_, err := os.Stat(a.accountDir(id))\n\tif err != nil {\n\t\treturn fmt.Errorf("account not found")\n\t}\n\tuser, err := inidb.New(a.accountFile(id, UserIdentityFilename), false, 10)\n\tif err != nil {\n\t\treturn fmt.Errorf("could not open userdb: %v", err)\n\t}\n\tif err = f(user); err != nil {\n\t\treturn err\n\t}\n\n\treturn nil\n}\n\nfunc (a *Account) Push('))
B('id digest by sum, name left out', 'C31', ('zkidentity/zkidentity.go', '\td := sha256.New()\n\td.Write([]byte(fi.Public.Name))\n\td.Write([]byte(fi.Public.Nick))\n\td.Write(fi.Public.SigKey[:])\n\td.Write(fi.Public.Key[:])\n\td.Write(fi.Public.Identity[:])\n\tcopy(fi.Public.Digest[:], d.Sum(nil))\n\n', '\tfi.Public.Digest = fi.Public.digest()\n\n'), ('zkidentity/zkidentity.go', '\td := sha256.New()\n\td.Write([]byte(p.Name))\n\td.Write([]byte(p.Nick))\n\td.Write(p.SigKey[:])\n\td.Write(p.Key[:])\n\td.Write(p.Identity[:])\n\tif !bytes.Equal(p.Digest[:], d.Sum(nil)) {\n\t\treturn false\n\t}\n', '\tdigest := p.digest()\n\tif !bytes.Equal(p.Digest[:], digest[:]) {\n\t\treturn false\n\t}\n'), ('zkidentity/zkidentity.go', 'func (p *PublicIdentity) Verify()', '// digest returns what is signed.\nfunc (p *PublicIdentity) digest() [sha256.Size]byte {\n\td := sha256.New()\n\tio.WriteString(d, p.Nick)\n\td.Write(p.SigKey[:])\n\td.Write(p.Key[:])\n\td.Write(p.Identity[:])\n\tvar sum [sha256.Size]byte\n\td.Sum(sum[:0])\n\treturn sum\n}\n\nfunc (p *PublicIdentity) Verify()'), ('zkidentity/zkidentity.go', '\t"fmt"\n', '\t"fmt"\n\t"io"\n'))
B('id digest by sum, appended', 'C31', ('zkidentity/zkidentity.go', '\td := sha256.New()\n\td.Write([]byte(fi.Public.Name))\n\td.Write([]byte(fi.Public.Nick))\n\td.Write(fi.Public.SigKey[:])\n\td.Write(fi.Public.Key[:])\n\td.Write(fi.Public.Identity[:])\n\tcopy(fi.Public.Digest[:], d.Sum(nil))\n\n', '\tfi.Public.Digest = fi.Public.digest()\n\n'), ('zkidentity/zkidentity.go', '\td := sha256.New()\n\td.Write([]byte(p.Name))\n\td.Write([]byte(p.Nick))\n\td.Write(p.SigKey[:])\n\td.Write(p.Key[:])\n\td.Write(p.Identity[:])\n\tif !bytes.Equal(p.Digest[:], d.Sum(nil)) {\n\t\treturn false\n\t}\n', '\tdigest := p.digest()\n\tif !bytes.Equal(p.Digest[:], digest[:]) {\n\t\treturn false\n\t}\n'), ('zkidentity/zkidentity.go', 'func (p *PublicIdentity) Verify()', '// digest returns what is signed.\nfunc (p *PublicIdentity) digest() [sha256.Size]byte {\n\td := sha256.New()\n\tio.WriteString(d, p.Name)\n\tio.WriteString(d, p.Nick)\n\td.Write(p.SigKey[:])\n\td.Write(p.Key[:])\n\td.Write(p.Identity[:])\n\tvar sum [sha256.Size]byte\n\td.Sum(sum[:])\n\treturn sum\n}\n\nfunc (p *PublicIdentity) Verify()'), ('zkidentity/zkidentity.go', '\t"fmt"\n', '\t"fmt"\n\t"io"\n'))
B('ra unmarshal keys table, swapped', 'C14', ('ratchet/ratchet.go', '\tif !unmarshalKey(&r.rootKey, s.RootKey) ||\n\t\t!unmarshalKey(&r.sendHeaderKey, s.SendHeaderKey) ||\n\t\t!unmarshalKey(&r.recvHeaderKey, s.RecvHeaderKey) ||\n\t\t!unmarshalKey(&r.nextSendHeaderKey, s.NextSendHeaderKey) ||\n\t\t!unmarshalKey(&r.nextRecvHeaderKey, s.NextRecvHeaderKey) ||\n\t\t!unmarshalKey(&r.sendChainKey, s.SendChainKey) ||\n\t\t!unmarshalKey(&r.recvChainKey, s.RecvChainKey) ||\n\t\t!unmarshalKey(&r.sendRatchetPrivate, s.SendRatchetPrivate) ||\n\t\t!unmarshalKey(&r.recvRatchetPublic, s.RecvRatchetPublic) {\n\t\treturn badSerialisedKeyLengthErr\n\t}\n\n', '\tfor _, k := range []struct {\n\t\tdst *[32]byte\n\t\tsrc []byte\n\t}{\n\t\t{&r.rootKey, s.RootKey},\n\t\t{&r.sendHeaderKey, s.SendHeaderKey},\n\t\t{&r.recvHeaderKey, s.RecvHeaderKey},\n\t\t{&r.nextSendHeaderKey, s.NextSendHeaderKey},\n\t\t{&r.nextRecvHeaderKey, s.NextRecvHeaderKey},\n\t\t{&r.sendChainKey, s.RecvChainKey},\n\t\t{&r.recvChainKey, s.RecvChainKey},\n\t\t{&r.sendRatchetPrivate, s.SendRatchetPrivate},\n\t\t{&r.recvRatchetPublic, s.RecvRatchetPublic},\n\t} {\n\t\tif !unmarshalKey(k.dst, k.src) {\n\t\t\treturn badSerialisedKeyLengthErr\n\t\t}\n\t}\n\n'))
B('ra unmarshal keys table, one short', 'C14', ('ratchet/ratchet.go', '\tif !unmarshalKey(&r.rootKey, s.RootKey) ||\n\t\t!unmarshalKey(&r.sendHeaderKey, s.SendHeaderKey) ||\n\t\t!unmarshalKey(&r.recvHeaderKey, s.RecvHeaderKey) ||\n\t\t!unmarshalKey(&r.nextSendHeaderKey, s.NextSendHeaderKey) ||\n\t\t!unmarshalKey(&r.nextRecvHeaderKey, s.NextRecvHeaderKey) ||\n\t\t!unmarshalKey(&r.sendChainKey, s.SendChainKey) ||\n\t\t!unmarshalKey(&r.recvChainKey, s.RecvChainKey) ||\n\t\t!unmarshalKey(&r.sendRatchetPrivate, s.SendRatchetPrivate) ||\n\t\t!unmarshalKey(&r.recvRatchetPublic, s.RecvRatchetPublic) {\n\t\treturn badSerialisedKeyLengthErr\n\t}\n\n', '\tfor _, k := range []struct {\n\t\tdst *[32]byte\n\t\tsrc []byte\n\t}{\n\t\t{&r.rootKey, s.RootKey},\n\t\t{&r.sendHeaderKey, s.SendHeaderKey},\n\t\t{&r.recvHeaderKey, s.RecvHeaderKey},\n\t\t{&r.nextSendHeaderKey, s.NextSendHeaderKey},\n\t\t{&r.nextRecvHeaderKey, s.NextRecvHeaderKey},\n\t\t{&r.sendChainKey, s.SendChainKey},\n\t\t{&r.recvChainKey, s.RecvChainKey},\n\t\t{&r.sendRatchetPrivate, s.SendRatchetPrivate},\n\t} {\n\t\tif !unmarshalKey(k.dst, k.src) {\n\t\t\treturn badSerialisedKeyLengthErr\n\t\t}\n\t}\n\n'))
Q('ca theirs helper', ('zkserver/cache.go', '''	var (
		from [zkidentity.IdentitySize]byte
		ok   bool
	)
	from, ok = kx.TheirIdentity().([32]byte)
	if !ok {
		return fmt.Errorf("invalid identity type")
	}
	filename, err := z.account.Deliver(cache.To,''', '''	from, err := theirIdentity(kx)
	if err != nil {
		return err
	}
	filename, err := z.account.Deliver(cache.To,'''), ('zkserver/cache.go', '''	var (
		from [zkidentity.IdentitySize]byte
		ok   bool
	)
	from, ok = kx.TheirIdentity().([32]byte)
	if !ok {
		return fmt.Errorf("invalid identity type")
	}
	filename, err := z.account.Deliver(proxy.To,''', '''	from, err := theirIdentity(kx)
	if err != nil {
		return err
	}
	filename, err := z.account.Deliver(proxy.To,'''), ('zkserver/cache.go', '''// think about''', '''func theirIdentity(kx *session.KX) ([zkidentity.IdentitySize]byte, error) {
	id, ok := kx.TheirIdentity().([32]byte)
	if !ok {
		return id, fmt.Errorf("invalid identity type")
	}
	return id, nil
}

// think about'''))
Q('ca one ack', ('zkserver/cache.go', '''		// ack with error
		writer <- &RPCWrapper{
			Message: rpc.Message{
				Command: rpc.TaggedCmdAcknowledge,
				Tag:     msg.Tag,
			},
			Payload: rpc.Acknowledge{
				Error:     replyError,
				ErrorCode: replyErrorCode,
			},
		}
''', '''		writer <- ackReply(msg.Tag, rpc.Acknowledge{
			Error:     replyError,
			ErrorCode: replyErrorCode,
		})
'''), ('zkserver/cache.go', '''	writer <- &RPCWrapper{
		Message: rpc.Message{
			Command: rpc.TaggedCmdAcknowledge,
			Tag:     msg.Tag,
		},
		Payload: rpc.Acknowledge{},
	}
''', '''	writer <- ackReply(msg.Tag, rpc.Acknowledge{})
'''), ('zkserver/cache.go', '''// think about''', '''func ackReply(tag uint32, a rpc.Acknowledge) *RPCWrapper {
	return &RPCWrapper{
		Message: rpc.Message{
			Command: rpc.TaggedCmdAcknowledge,
			Tag:     tag,
		},
		Payload: a,
	}
}

// think about'''))
Q('ca ack in a variable', ('zkserver/cache.go', '''	filename, err := z.account.Deliver(cache.To, from, cache.Payload, false)
	if err != nil {
		replyError := "internal error"
		replyErrorCode := rpc.ErrorCodeInvalid
		if z.account.Disabled(cache.To) {
			replyError = fmt.Sprintf("identity disabled %x",
				cache.To)
			replyErrorCode = rpc.ErrorCodeUserDisabled
		}
		// ack with error
		writer <- &RPCWrapper{
			Message: rpc.Message{
				Command: rpc.TaggedCmdAcknowledge,
				Tag:     msg.Tag,
			},
			Payload: rpc.Acknowledge{
				Error:     replyError,
				ErrorCode: replyErrorCode,
			},
		}
		z.Dbg(idApp, "delivery failed: %v", err)
		return nil
	}

	// ack
	writer <- &RPCWrapper{
		Message: rpc.Message{
			Command: rpc.TaggedCmdAcknowledge,
			Tag:     msg.Tag,
		},
		Payload: rpc.Acknowledge{},
	}
''', '''	var ack rpc.Acknowledge
	filename, err := z.account.Deliver(cache.To, from, cache.Payload, false)
	if err != nil {
		z.Dbg(idApp, "delivery failed: %v", err)
		ack.Error = "internal error"
		ack.ErrorCode = rpc.ErrorCodeInvalid
		if z.account.Disabled(cache.To) {
			ack.Error = fmt.Sprintf("identity disabled %x",
				cache.To)
			ack.ErrorCode = rpc.ErrorCodeUserDisabled
		}
	}

	// ack
	writer <- &RPCWrapper{
		Message: rpc.Message{
			Command: rpc.TaggedCmdAcknowledge,
			Tag:     msg.Tag,
		},
		Payload: ack,
	}
	if err != nil {
		return nil
	}
'''))
Q('ca proxy sanity first', ('zkserver/cache.go', '''	reply := RPCWrapper{
		Message: rpc.Message{
			Command: rpc.TaggedCmdProxyReply,
			Tag:     msg.Tag,
		},
	}
	payload := rpc.ProxyReply{
		To: proxy.To,
	}

	// sanity
	if msg.Command != rpc.TaggedCmdProxy {
		return fmt.Errorf("invalid proxy command")
	}
''', '''	// sanity
	if msg.Command != rpc.TaggedCmdProxy {
		return fmt.Errorf("invalid proxy command")
	}

	payload := rpc.ProxyReply{
		To: proxy.To,
	}
'''), ('zkserver/cache.go', '''	reply.Payload = payload
	writer <- &reply
	return nil
''', '''	writer <- &RPCWrapper{
		Message: rpc.Message{
			Command: rpc.TaggedCmdProxyReply,
			Tag:     msg.Tag,
		},
		Payload: payload,
	}
	return nil
'''))
Q('pe parse helper', ('zkserver/pending.go', '''	t, err := strconv.ParseInt(v, 10, 64)
	if err != nil {
		z.Error(idApp, "%v corrupt token %v", conn.RemoteAddr(), token)
		return false
	}
	ts := time.Unix(t, 0)
	if ts.Before(time.Now()) {
		z.Dbg''', '''	expired, err := isExpired(v)
	if err != nil {
		z.Error(idApp, "%v corrupt token %v", conn.RemoteAddr(), token)
		return false
	}
	if expired {
		z.Dbg'''), ('zkserver/pending.go', '''		t, err := strconv.ParseInt(v, 10, 64)
		if err != nil {
			// token corrupt, remove from db and complain
			z.Error(idApp, "corrupt token %v", k)
			_ = pending.Del("", k)
			continue
		}
		ts := time.Unix(t, 0)
		if ts.Before(time.Now()) {
			// token expired, remove from db
			_ = pending.Del("", k)
			continue
		}
''', '''		expired, err := isExpired(v)
		if err != nil {
			// token corrupt, remove from db and complain
			z.Error(idApp, "corrupt token %v", k)
		}
		if err != nil || expired {
			_ = pending.Del("", k)
		}
'''), ('zkserver/pending.go', '''func (z *ZKS) prunePending(''', '''// isExpired tells if the time a token is valid until has passed.
func isExpired(v string) (bool, error) {
	t, err := strconv.ParseInt(v, 10, 64)
	if err != nil {
		return false, err
	}
	return time.Unix(t, 0).Before(time.Now()), nil
}

func (z *ZKS) prunePending('''))
Q('pe take helper', ('zkserver/pending.go', '''	// get token
	v, err := pending.Get("", token)
	if err != nil {
		z.Dbg(idApp, "%v invalid token %v", conn.RemoteAddr(), token)
		return false
	}

	// delete token
	err = pending.Del("", token)
	if err != nil {
		z.Error(idApp, "could not delete token %v", conn.RemoteAddr(),
			token)
		return false
	}
	err = pending.Save()
	if err != nil {
		z.Error(idApp, "could not save pending db: %v", err)
		return false
	}
''', '''	v, err := takeToken(pending, token)
	if err != nil {
		z.Error(idApp, "%v token %v: %v", conn.RemoteAddr(), token, err)
		return false
	}
'''), ('zkserver/pending.go', '''func (z *ZKS) validToken(''', '''// takeToken removes a token and returns its record.
func takeToken(pending *inidb.INIDB, token string) (string, error) {
	v, err := pending.Get("", token)
	if err != nil {
		return "", err
	}
	if err = pending.Del("", token); err != nil {
		return "", err
	}
	if err = pending.Save(); err != nil {
		return "", err
	}
	return v, nil
}

func (z *ZKS) validToken('''))
Q('pe compare seconds', ('zkserver/pending.go', '''	ts := time.Unix(t, 0)
	if ts.Before(time.Now()) {
		z.Dbg''', '''	if time.Now().After(time.Unix(t, 0)) {
		z.Dbg'''))
Q('pe lock helper', ('zkserver/pending.go', '''	// a token may only be used once
	z.pendingMtx.Lock()
	defer z.pendingMtx.Unlock()

	// open db''', '''	// a token may only be used once
	z.pendingMtx.Lock()
	ok := z.useToken(token, conn)
	z.pendingMtx.Unlock()
	return ok
}

// useToken must be called with the mutex held.
func (z *ZKS) useToken(token string, conn net.Conn) bool {
	// open db'''))
Q('rz pull no goto', ('zkserver/rendezvous.go', '''	// vars to deal with go bitching about goto
	var (
		rzXDR    []byte
		rzRecord rpc.Rendezvous
		br       *bytes.Reader
	)

	// get token
	v, err := rz.Get("", r.Token)
	if err != nil {
		payload.Error = "invalid PIN"
		goto bad
	}

	// decode value
	rzXDR, err = base64.StdEncoding.DecodeString(v)
	if err != nil {
		payload.Error = "internal error base64decode"
		goto bad
	}
	br = bytes.NewReader(rzXDR)
	_, err = z.unmarshal(br, &rzRecord)
	if err != nil {
		payload.Error = "internal error unmarshal"
		goto bad
	}

	// XXX check for expiration here

	// setup reply
	payload.Error = ""
	payload.Token = r.Token
	payload.Blob = rzRecord.Blob
bad:
	reply.Payload = payload
''', '''	rzRecord, msgErr := z.pullRecord(rz, r.Token)
	payload.Error = msgErr
	if msgErr == "" {
		payload.Token = r.Token
		payload.Blob = rzRecord.Blob
	}
	reply.Payload = payload
'''), ('zkserver/rendezvous.go', '''func (z *ZKS) handleRendezvousPull(''', '''// pullRecord returns the record of a token or what to tell the client.
func (z *ZKS) pullRecord(rz *inidb.INIDB, token string) (rzRecord rpc.Rendezvous, msg string) {
	v, err := rz.Get("", token)
	if err != nil {
		return rzRecord, "invalid PIN"
	}
	rzXDR, err := base64.StdEncoding.DecodeString(v)
	if err != nil {
		return rzRecord, "internal error base64decode"
	}
	_, err = z.unmarshal(bytes.NewReader(rzXDR), &rzRecord)
	if err != nil {
		return rzRecord, "internal error unmarshal"
	}

	// XXX check for expiration here

	return rzRecord, ""
}

func (z *ZKS) handleRendezvousPull('''), ('zkserver/rendezvous.go', '''	payload := rpc.RendezvousPullReply{
		Error: "internal error, contact server administrator",
	}
''', '''	payload := rpc.RendezvousPullReply{}
'''))
Q('rz store helper', ('zkserver/rendezvous.go', '''	// store blob
	for retry > 0 {
		token, err := tools.RandomUint64()
		if err != nil {
			// out of entropy
			time.Sleep(500 * time.Millisecond)
			retry--
			continue
		}
		token %= 1000000
		tokenS := strconv.FormatUint(token, 10)

		// get token
		_, err = rz.Get("", tokenS)
		if err == nil {
			// duplicate
			retry--
			continue
		}

		// value = base64(xdr(TaggedCmdRendezvous))
		var b bytes.Buffer
		_, err = xdr.Marshal(&b, r)
		if err != nil {
			z.Error(idRPC, "handleRendezvous: could not marshal")
			goto bad
		}
		err = rz.Set("", tokenS,
			base64.StdEncoding.EncodeToString(b.Bytes()))
		if err != nil {
			// db error
			retry--
			z.Error(idRPC, "could not insert in rendezvous db: %v",
				err)
			continue
		}

		// save db back, only then the token may be handed out
		err = rz.Save()
		if err != nil {
			z.Error(idApp, "could not save rendezvous db: %v", err)
			goto bad
		}

		// success
		payload.Error = ""
		payload.Token = tokenS
		break
	}

bad:
''', '''	// store blob
	for ; retry > 0; retry-- {
		tokenS, err := freePIN(rz)
		if err != nil {
			// out of entropy
			time.Sleep(500 * time.Millisecond)
			continue
		}
		if tokenS == "" {
			// duplicate
			continue
		}

		// value = base64(xdr(TaggedCmdRendezvous))
		var b bytes.Buffer
		_, err = xdr.Marshal(&b, r)
		if err != nil {
			z.Error(idRPC, "handleRendezvous: could not marshal")
			goto bad
		}
		err = rz.Set("", tokenS,
			base64.StdEncoding.EncodeToString(b.Bytes()))
		if err != nil {
			// db error
			z.Error(idRPC, "could not insert in rendezvous db: %v",
				err)
			continue
		}

		// save db back, only then the token may be handed out
		err = rz.Save()
		if err != nil {
			z.Error(idApp, "could not save rendezvous db: %v", err)
			goto bad
		}

		// success
		payload.Error = ""
		payload.Token = tokenS
		break
	}

bad:
'''), ('zkserver/rendezvous.go', '''// handleRendezvous handles all''', '''// freePIN draws a PIN and returns it, or nothing when it is in use.
func freePIN(rz *inidb.INIDB) (string, error) {
	token, err := tools.RandomUint64()
	if err != nil {
		return "", err
	}
	pin := strconv.FormatUint(token%1000000, 10)
	if _, err = rz.Get("", pin); err == nil {
		return "", nil
	}
	return pin, nil
}

// handleRendezvous handles all'''))
Q('rz validate helper', ('zkserver/rendezvous.go', '''	if len(r.Blob) > 4096 {
		payload.Error = "invalid blob size"
		goto bad
	}
	if exp, err := strconv.ParseUint(r.Expiration, 10, 64); err != nil ||
		exp > 168 {
		payload.Error = "invalid expiration"
		goto bad
	}
''', '''	if s := badRendezvous(r); s != "" {
		payload.Error = s
		goto bad
	}
'''), ('zkserver/rendezvous.go', '''// handleRendezvous handles all''', '''// badRendezvous tells what is wrong with a request.
func badRendezvous(r rpc.Rendezvous) string {
	if len(r.Blob) > 4096 {
		return "invalid blob size"
	}
	exp, err := strconv.ParseUint(r.Expiration, 10, 64)
	if err != nil || exp > 168 {
		return "invalid expiration"
	}
	return ""
}

// handleRendezvous handles all'''))
Q('ac reply helper', ('zkserver/account.go', '''	// send reply
	car := rpc.CreateAccountReply{}
	if err != nil {
		car.Error = rpc.ErrInternalError.Error()
	}
	_, err = xdr.Marshal(conn, car)
	if err != nil {
		return fmt.Errorf("could not marshal CreateAccountReply")
	}

	return nil
''', '''	// send reply
	return sendCreated(conn, err)
'''), ('zkserver/account.go', '''func (z *ZKS) handleAccountCreate(''', '''// sendCreated tells the client how creating its account went.
func sendCreated(conn net.Conn, failed error) error {
	car := rpc.CreateAccountReply{}
	if failed != nil {
		car.Error = rpc.ErrInternalError.Error()
	}
	if _, err := xdr.Marshal(conn, car); err != nil {
		return fmt.Errorf("could not marshal CreateAccountReply")
	}
	return nil
}

func (z *ZKS) handleAccountCreate('''))
Q('ac policy helper', ('zkserver/account.go', '''	switch z.settings.CreatePolicy {
	default:
		fallthrough
	case "no":
		z.accountReplyFailure("disallowing account create", conn, ca)
		return fmt.Errorf("disallowing account create")
	case "token":
		if !z.validToken(ca.Token, conn) {
			z.accountReplyFailure("invalid account create token",
				conn, ca)
			return fmt.Errorf("invalid account create token")
		}
	case "yes":
	}
''', '''	if err := z.mayCreate(conn, ca); err != nil {
		z.accountReplyFailure(err.Error(), conn, ca)
		return err
	}
'''), ('zkserver/account.go', '''func (z *ZKS) handleAccountCreate(''', '''// mayCreate tells if the policy lets the client create its account.
func (z *ZKS) mayCreate(conn net.Conn, ca rpc.CreateAccount) error {
	if z.settings.CreatePolicy == "yes" {
		return nil
	}
	if z.settings.CreatePolicy != "token" {
		return fmt.Errorf("disallowing account create")
	}
	if !z.validToken(ca.Token, conn) {
		return fmt.Errorf("invalid account create token")
	}
	return nil
}

func (z *ZKS) handleAccountCreate('''))
Q('ac identity helper', ('zkserver/account.go', '''	id, err := hex.DecodeString(ud.Identity)
	if err != nil {
		udr.Error = err.Error()
		return
	}
	if len(id) != zkidentity.IdentitySize {
		udr.Error = "invalid identity size"
		return
	}
	var pid [zkidentity.IdentitySize]byte
	copy(pid[:], id)
	err = z.account.Disable(pid)
	if err != nil {
		udr.Error = err.Error()
		return
	}

	return
''', '''	pid, err := parseIdentity(ud.Identity)
	if err == nil {
		err = z.account.Disable(pid)
	}
	if err != nil {
		udr.Error = err.Error()
	}
	return
'''), ('zkserver/account.go', '''	id, err := hex.DecodeString(ue.Identity)
	if err != nil {
		uer.Error = err.Error()
		return
	}
	if len(id) != zkidentity.IdentitySize {
		uer.Error = "invalid identity size"
		return
	}
	var pid [zkidentity.IdentitySize]byte
	copy(pid[:], id)
	err = z.account.Enable(pid)
	if err != nil {
		uer.Error = err.Error()
		return
	}

	return
''', '''	pid, err := parseIdentity(ue.Identity)
	if err == nil {
		err = z.account.Enable(pid)
	}
	if err != nil {
		uer.Error = err.Error()
	}
	return
'''), ('zkserver/account.go', '''// handleIdentityDisable always''', '''// parseIdentity decodes an identity.
func parseIdentity(s string) (pid [zkidentity.IdentitySize]byte, err error) {
	id, err := hex.DecodeString(s)
	if err != nil {
		return pid, err
	}
	if len(id) != len(pid) {
		return pid, fmt.Errorf("invalid identity size")
	}
	copy(pid[:], id)
	return pid, nil
}

// handleIdentityDisable always'''))
Q('to fingerprint sum', ('tools/tools.go', '''	d := sha256.New()
	d.Write(blob)
	digest := d.Sum(nil)
	return hex.EncodeToString(digest)
''', '''	digest := sha256.Sum256(blob)
	return hex.EncodeToString(digest[:])
'''))
Q('to random slice', ('tools/tools.go', '''	var b [8]byte
	_, err := io.ReadFull(r, b[:])
	if err != nil {
		return 0, err
	}
	return binary.BigEndian.Uint64(b[:]), nil
''', '''	b := make([]byte, 8)
	if n, err := io.ReadFull(r, b); err != nil || n != len(b) {
		if err == nil {
			err = io.ErrUnexpectedEOF
		}
		return 0, err
	}
	return binary.BigEndian.Uint64(b), nil
'''))
Q('to random binary', ('tools/tools.go', '''	var b [8]byte
	_, err := io.ReadFull(r, b[:])
	if err != nil {
		return 0, err
	}
	return binary.BigEndian.Uint64(b[:]), nil
''', '''	var x uint64
	err := binary.Read(r, binary.BigEndian, &x)
	if err != nil {
		return 0, err
	}
	return x, nil
'''))
Q('kxa open helper', ('zkclient/kxacceptwindow.go', '''		saltR, nonceR, dataR, err := blobshare.UnpackSaltNonce(ka.rendezvousPullReply.Blob)
		if err != nil {
			ka.Status(w, true, "Could not unpack: %v", err)
			return
		}

		dk, err := blobshare.DeriveKey([]byte(ka.password), saltR)
		if err != nil {
			ka.Status(w, true, "Could not derive key: %v", err)
			return
		}

		decrypted, err := blobshare.Decrypt(dk, nonceR, dataR)
		if err != nil {
			ka.Status(w, true, "Could not decrypt blob: %v", err)
			return
		}

		// unmarshal into public identity
		var identity zkidentity.PublicIdentity
		br := bytes.NewReader(decrypted)
		_, err = unmarshal(br, &identity)
		if err != nil {
			ka.Status(w, true, "Could not unmarshal public "+
				"identity")
			return
		}
		if !identity.Verify() {
			ka.Status(w, true, "Could not verify public identity")
			return
		}
''', '''		dk, identity, err := openIdentityBlob(ka.rendezvousPullReply.Blob, ka.password)
		if err != nil {
			ka.Status(w, true, "Could not open blob: %v", err)
			return
		}
'''), ('zkclient/kxacceptwindow.go', '''			pid:         &identity,
''', '''			pid:         identity,
'''), ('zkclient/kxacceptwindow.go', '''func (ka *kxAcceptWindow) KeyHandler(''', '''// openIdentityBlob decrypts and verifies the identity in a blob.
func openIdentityBlob(blob []byte, password string) (*[32]byte, *zkidentity.PublicIdentity, error) {
	salt, nonce, data, err := blobshare.UnpackSaltNonce(blob)
	if err != nil {
		return nil, nil, err
	}
	dk, err := blobshare.DeriveKey([]byte(password), salt)
	if err != nil {
		return nil, nil, err
	}
	decrypted, err := blobshare.Decrypt(dk, nonce, data)
	if err != nil {
		return nil, nil, err
	}
	identity := new(zkidentity.PublicIdentity)
	_, err = unmarshal(bytes.NewReader(decrypted), identity)
	if err != nil {
		return nil, nil, err
	}
	if !identity.Verify() {
		return nil, nil, errors.New("could not verify public identity")
	}
	return dk, identity, nil
}

func (ka *kxAcceptWindow) KeyHandler('''), ('zkclient/kxacceptwindow.go', '''	"encoding/hex"
''', '''	"encoding/hex"
	"errors"
'''))
Q('kxa nobody there helper', ('zkclient/kxacceptwindow.go', '''			ids := hex.EncodeToString(identity.Identity[:])
			fullPath := path.Join(ka.zkc.settings.Root, inboundDir, ids)
			_, err1 := os.Stat(path.Join(fullPath, ratchetFilename))
			_, err2 := os.Stat(path.Join(fullPath, halfRatchetFilename))
			if !(err1 == nil || err2 == nil) {
				// make sure keys are the same
				ka.zkc.PrintfT(-1, "pretend keys are the same")
				newIdentity = false // skip saving identity
			} else {
				// complain
				ka.Status(w, true, "identity already exists")
				return
			}
''', '''			if ka.zkc.hasRatchet(identity.Identity) {
				// complain
				ka.Status(w, true, "identity already exists")
				return
			}
			// make sure keys are the same
			ka.zkc.PrintfT(-1, "pretend keys are the same")
			newIdentity = false // skip saving identity
'''), ('zkclient/kxacceptwindow.go', '''func (ka *kxAcceptWindow) KeyHandler(''', '''// hasRatchet tells if there is a ratchet or half of one on disk.
func (z *ZKC) hasRatchet(id [zkidentity.IdentitySize]byte) bool {
	dir := path.Join(z.settings.Root, inboundDir, hex.EncodeToString(id[:]))
	for _, name := range []string{ratchetFilename, halfRatchetFilename} {
		if _, err := os.Stat(path.Join(dir, name)); err == nil {
			return true
		}
	}
	return false
}

func (ka *kxAcceptWindow) KeyHandler('''))
Q('kxw seal helper', ('zkclient/kxwindow.go', '''		key, salt, err := blobshare.NewKey([]byte(kw.password))
		if err != nil {
			kw.Status(w, true, "Could not create key: %v ", err)
			return
		}

		encrypted, nonce, err := blobshare.Encrypt(myid.Bytes(), key)
		if err != nil {
			kw.Status(w, true, "Could not encrypt: %v ", err)
			return
		}

		packed := blobshare.PackSaltNonce(salt, nonce, encrypted)
''', '''		key, packed, err := sealBlob(myid.Bytes(), kw.password)
		if err != nil {
			kw.Status(w, true, "Could not encrypt: %v ", err)
			return
		}
'''), ('zkclient/kxwindow.go', '''func (kw *kxWindow) KeyHandler(''', '''// sealBlob encrypts data with a password.
func sealBlob(data []byte, password string) (*[32]byte, []byte, error) {
	key, salt, err := blobshare.NewKey([]byte(password))
	if err != nil {
		return nil, nil, err
	}
	encrypted, nonce, err := blobshare.Encrypt(data, key)
	if err != nil {
		return nil, nil, err
	}
	return key, blobshare.PackSaltNonce(salt, nonce, encrypted), nil
}

func (kw *kxWindow) KeyHandler('''))
Q('rs remove loop', ('zkclient/reset.go', '''	// always remove half ratchet
	os.Remove(path.Join(fullPath, halfRatchetFilename))

	// delete ratchet from disk
	os.Remove(path.Join(fullPath, ratchetFilename))
''', '''	// delete half and full ratchet from disk
	for _, name := range []string{halfRatchetFilename, ratchetFilename} {
		os.Remove(path.Join(fullPath, name))
	}
'''))
Q('bs pack append', ('blobshare/blobshare.go', '''	packed := make([]byte, len(salt)+len(nonce)+len(data))
	copy(packed[0:], salt[:])
	copy(packed[32:], nonce[:])
	copy(packed[32+24:], data)

	return packed
''', '''	packed := make([]byte, 0, len(salt)+len(nonce)+len(data))
	packed = append(packed, salt[:]...)
	packed = append(packed, nonce[:]...)
	return append(packed, data...)
'''))
Q('bs unpack nonce shared', ('blobshare/blobshare.go', '''	var (
		saltR  [32]byte
		nonceR [24]byte
	)
	if len(packed) < len(saltR)+len(nonceR) {
		return nil, nil, nil, fmt.Errorf("packed data too short")
	}
	copy(saltR[:], packed[0:32])
	copy(nonceR[:], packed[32:32+24])
	salt = &saltR
	nonce = &nonceR

	data = packed[32+24:]

	return
''', '''	salt = new([32]byte)
	if len(packed) < len(salt) {
		return nil, nil, nil, fmt.Errorf("packed data too short")
	}
	n := copy(salt[:], packed)
	nonce, data, err = UnpackNonce(packed[n:])
	if err != nil {
		return nil, nil, nil, err
	}
	return salt, nonce, data, nil
'''))
Q('bk find helper', ('zkclient/blobkeys.go', '''		_, err := kdb.Get("", keyTS)
		if err == nil {
			// really shouldnt happen
			continue
		}

		err = kdb.Set(''', '''		if _, err := kdb.Get("", keyTS); err == nil {
			// really shouldnt happen
			continue
		}

		err := kdb.Set('''))
Q('gi decode helper', ('zkclient/groupinvites.go', '''			idx, err := hex.DecodeString(id)
			if err != nil {
				z.Error(idZKC, "corrupt invite/join db %v:%v",
					group,
					id)
				continue
			}
			var idxx [zkidentity.IdentitySize]byte
			copy(idxx[:], idx)
			pid, err := z.ab.FindIdentity(idxx)
			if err != nil {
				z.Error(idZKC, "could not find identity %v:%v",
					group,
					id)
				continue
			}
''', '''			pid, err := z.identityOf(id)
			if err != nil {
				z.Error(idZKC, "corrupt invite/join db %v:%v: %v",
					group,
					id,
					err)
				continue
			}
'''), ('zkclient/groupinvites.go', '''// listInvites displays all current open invites.
func (z *ZKC) listInvitesJoins(''', '''// identityOf finds the contact a record is of.
func (z *ZKC) identityOf(id string) (*zkidentity.PublicIdentity, error) {
	b, err := hex.DecodeString(id)
	if err != nil {
		return nil, err
	}
	var pid [zkidentity.IdentitySize]byte
	copy(pid[:], b)
	return z.ab.FindIdentity(pid)
}

// listInvites displays all current open invites.
func (z *ZKC) listInvitesJoins('''))
B('c12 saved key kept when last', 'C12', ('ratchet/ratchet.go', '''		delete(messageKeys, msgNum)
		if len(messageKeys) == 0 {
			delete(r.saved, headerKey)
		}
''', '''		if len(messageKeys) > 1 {
			delete(messageKeys, msgNum)
		}
'''))
B('c12 saved key gone before open', 'C12', ('ratchet/ratchet.go', '''		msg, ok := secretbox.Open([]byte{}, sealedMessage, &nonce, &msgKey.key)
		if !ok {
			return nil, errors.New("ratchet: corrupt message")
		}
		delete(messageKeys, msgNum)
''', '''		delete(messageKeys, msgNum)
		msg, ok := secretbox.Open([]byte{}, sealedMessage, &nonce, &msgKey.key)
		if !ok {
			return nil, errors.New("ratchet: corrupt message")
		}
'''))
B('c12 count not past', 'C12', ('ratchet/ratchet.go', '''		r.mergeSavedKeys(savedKeys)
		r.recvCount = messageNum + 1
''', '''		r.mergeSavedKeys(savedKeys)
		if messageNum > r.recvCount {
			r.recvCount = messageNum
		}
		r.recvCount++
		if len(msg) == 0 {
			r.recvCount--
		}
'''))
B('c12 chain not advanced for empty', 'C12', ('ratchet/ratchet.go', '''		copy(r.recvChainKey[:], provisionalChainKey[:])
		r.mergeSavedKeys(savedKeys)
''', '''		if len(msg) != 0 {
			copy(r.recvChainKey[:], provisionalChainKey[:])
		}
		r.mergeSavedKeys(savedKeys)
'''))
B('c12 next header key early', 'C12', ('ratchet/ratchet.go', '''	copy(nonce[:], header[nonceInHeaderOffset:])
	msg, ok = secretbox.Open(nil, sealedMessage, &nonce, &messageKey)
''', '''	copy(nonce[:], header[nonceInHeaderOffset:])
	copy(r.recvRatchetPublic[:], dhPublic[:])
	msg, ok = secretbox.Open(nil, sealedMessage, &nonce, &messageKey)
'''))
B('c12 wiped early', 'C12', ('ratchet/ratchet.go', '''	sha := sha256.New()
	sha.Write(rootKeyUpdateLabel)
	sha.Write(r.rootKey[:])
	sha.Write(sharedKey)

	var rootKeyHMAC hash.Hash
''', '''	for i := range r.sendRatchetPrivate {
		r.sendRatchetPrivate[i] = 0
	}
	sha := sha256.New()
	sha.Write(rootKeyUpdateLabel)
	sha.Write(r.rootKey[:])
	sha.Write(sharedKey)

	var rootKeyHMAC hash.Hash
'''))
B('c12 merge replaces', 'C12', ('ratchet/ratchet.go', '''		messageKeys, ok := r.saved[headerKey]
		if !ok {
			r.saved[headerKey] = newMessageKeys
			continue
		}
''', '''		messageKeys, ok := r.saved[headerKey]
		if !ok || len(newMessageKeys) > len(messageKeys) {
			r.saved[headerKey] = newMessageKeys
			continue
		}
'''))
B('c13 limit per chain sum', 'C13', ('ratchet/ratchet.go', '''	missingMessages := messageNum - receivedCount
	if missingMessages > maxMissingMessages {
''', '''	missingMessages := messageNum - receivedCount
	if receivedCount != 0 && missingMessages > maxMissingMessages {
'''))
B('c13 limit 16 bits', 'C13', ('ratchet/ratchet.go', '''	missingMessages := messageNum - receivedCount
	if missingMessages > maxMissingMessages {
''', '''	missingMessages := messageNum - receivedCount
	if uint16(missingMessages) > maxMissingMessages {
'''))
B('c13 limit by number', 'C13', ('ratchet/ratchet.go', '''	if missingMessages > maxMissingMessages {
''', '''	if missingMessages > maxMissingMessages+receivedCount {
'''))
B('c13 limit saved', 'C13', ('ratchet/ratchet.go', '''	if missingMessages > maxMissingMessages {
''', '''	if missingMessages > maxMissingMessages && len(r.saved) != 0 {
'''))
B('c30 keep going', 'C30', ('ratchet/ratchet.go', '''		msg, ok := secretbox.Open(nil, sealedMessage, &nonce, &messageKey)
		if !ok {
			return nil, errors.New("ratchet: corrupt message")
		}

		copy(r.recvChainKey''', '''		msg, ok := secretbox.Open(nil, sealedMessage, &nonce, &messageKey)
		if !ok && messageNum != r.recvCount {
			return nil, errors.New("ratchet: corrupt message")
		}

		copy(r.recvChainKey'''))
B('c30 blob short', 'C30', ('blobshare/blobshare.go', '''	if !ok {
		return nil, fmt.Errorf("could not decrypt")
	}
''', '''	if !ok && len(data) > secretbox.Overhead {
		return nil, fmt.Errorf("could not decrypt")
	}
'''))
B('c30 kx any nonzero', 'C30', ('session/kx.go', '''	k4, ok := recvCipherAndGetKey(kx, kx.OurPrivateKey, k3)
	if ok != 1 {
''', '''	k4, ok := recvCipherAndGetKey(kx, kx.OurPrivateKey, k3)
	if ok != 1 && k4 == nil {
'''))
B('c30 header of another', 'C30', ('ratchet/ratchet.go', '''	header, ok = secretbox.Open(nil, sealedHeader, &nonce, &r.nextRecvHeaderKey)
	if !ok {
''', '''	header, ok = secretbox.Open(header, sealedHeader, &nonce, &r.nextRecvHeaderKey)
	if !ok && header == nil {
'''))
B('c04 sync only large', 'C04', ('zkserver/account/account.go', '''	if cerr := f.Close(); err == nil {
		err = cerr
	}
	if err == nil {
		err = os.Rename(f.Name(), fullPath)
	}
	if err != nil {
		os.Remove(f.Name())
		return "", fmt.Errorf("could not write to %v: %v", cache, err)
	}
''', '''	if cerr := f.Close(); err == nil {
		err = cerr
	}
	if err == nil {
		err = os.Rename(f.Name(), fullPath)
	}
	if err != nil {
		os.Remove(f.Name())
		if !os.IsNotExist(err) {
			return "", fmt.Errorf("could not write to %v: %v", cache, err)
		}
	}
'''))
B('c04 close error dropped', 'C04', ('zkserver/account/account.go', '''	if cerr := f.Close(); err == nil {
		err = cerr
	}
	if err == nil {
		err = os.Rename(f.Name(), fullPath)
	}
	if err != nil {
		os.Remove(f.Name())
		return "", fmt.Errorf("could not write to %v: %v", cache, err)
	}
''', '''	f.Close()
	if err == nil {
		err = os.Rename(f.Name(), fullPath)
	}
	if err != nil {
		os.Remove(f.Name())
		return "", fmt.Errorf("could not write to %v: %v", cache, err)
	}
'''))
B('c04 stat before the lock', 'C04', ('zkserver/account/account.go', '''	a.Lock()
	defer a.Unlock()

	// sanity
	fullPath := path.Join(cache, filename)
	_, err = os.Stat(fullPath)
	if err == nil {
		return "", fmt.Errorf("duplicate filename %v", filename)
	}
''', '''	// sanity
	fullPath := path.Join(cache, filename)
	_, err = os.Stat(fullPath)
	if err == nil {
		return "", fmt.Errorf("duplicate filename %v", filename)
	}
	a.Lock()
	defer a.Unlock()
'''))
B('c05 delete failed forgets', 'C05', ('zkserver/account/account.go', '''	cache := a.accountFile(from, CacheDir)
	err := os.Remove(path.Join(cache, identifier))
	if err != nil {
		return err
	}

	dn, found''', '''	cache := a.accountFile(from, CacheDir)
	err := os.RemoveAll(path.Join(cache, identifier))
	if err != nil {
		return err
	}

	dn, found'''))
B('c03 cleartext by size', 'C03', ('zkserver/cache.go', '''cache.Payload, false)''', '''cache.Payload, len(cache.Payload) < 16)'''))
B('c03 from first bytes', 'C03', ('zkserver/account/account.go', '''		From:      from,
		Received:''', '''		From:      to,
		Received:'''))
B('c27 silent for disabled', 'C27', ('zkserver/cache.go', '''			replyErrorCode = rpc.ErrorCodeUserDisabled
		}
''', '''			replyErrorCode = rpc.ErrorCodeUserDisabled
			if replyErrorCode == 0 {
				return nil
			}
			if len(cache.Payload) == 0 {
				return nil
			}
		}
'''))
B('c05 ack frees other slot', 'C05', ('zkserver/zkserver.go', '''			// mark free
			sc.Lock()
			sc.tagMessage[message.Tag] = nil
			sc.Unlock()
''', '''			// mark free
			sc.Lock()
			if err == nil {
				sc.tagMessage[message.Tag] = nil
			}
			sc.Unlock()
'''))
B('c05 slots read unlocked later', 'C05', ('zkserver/zkserver.go', '''				err = z.account.Delete(from, m.Identifier)
''', '''				err = z.account.Delete(from, sc.tagMessage[0].Identifier)
'''))
B('c05 error ack removes', 'C05', ('zkserver/account/account.go', '''				f, err := os.Open(filename)
				if err != nil {
					dn.send(&Notification{
''', '''				f, err := os.Open(filename)
				if err == nil {
					if st, serr := f.Stat(); serr == nil && st.Size() == 0 {
						f.Close()
						os.Remove(filename)
						continue
					}
				}
				if err != nil {
					dn.send(&Notification{
'''))
B('c05 removed on disable', 'C05', ('zkserver/account/account.go', '''	return os.Rename(accountName, accountNameDisabled)
''', '''	_ = os.RemoveAll(path.Join(accountName, CacheDir))
	return os.Rename(accountName, accountNameDisabled)
'''))
B('c05 recorded when named', 'C05', ('zkserver/zkserver.go', '''			sc.tagMessage[tag] = &r
			sc.Unlock()
''', '''			if n.Identifier != "" && !n.Cleartext {
				sc.tagMessage[tag] = &r
			}
			sc.Unlock()
'''))
B('c05 delete path of own name', 'C05', ('zkserver/account/account.go', '''	err := os.Remove(path.Join(cache, identifier))
	if err != nil {
		return err
	}
''', '''	err := os.Remove(path.Join(cache, identifier))
	if err != nil {
		// may have been disabled in the mean time
		err = os.RemoveAll(path.Join(a.accountDirDisabled(from), CacheDir))
	}
	if err != nil {
		return err
	}
'''))
B('c06 fallthrough moved', 'C06', ('zkserver/account.go', '''	case "token":
		if !z.validToken(ca.Token, conn) {
''', '''	case "token":
		if ca.Token != "" && !z.validToken(ca.Token, conn) {
'''))
B('c06 default is yes', 'C06', ('zkserver/account.go', '''	default:
		fallthrough
	case "no":
''', '''	case "no":
'''))
B('c06 create forced when token', 'C06', ('zkserver/account.go', '''	err := z.account.Create(ca.PublicIdentity, false)
''', '''	err := z.account.Create(ca.PublicIdentity, ca.Token != "")
'''))
B('c06 error only for internal', 'C06', ('zkserver/account.go', '''	if err != nil {
		car.Error = rpc.ErrInternalError.Error()
	}
''', '''	if err != nil && !z.account.Enabled(ca.PublicIdentity.Identity) {
		car.Error = rpc.ErrInternalError.Error()
	}
'''))
B('c06 verify other copy', 'C06', ('zkserver/account.go', '''	if !ca.PublicIdentity.Verify() {
''', '''	if ca.PublicIdentity.Nick != "" && !ca.PublicIdentity.Verify() {
'''))
B('c07 save only when left', 'C07', ('zkserver/pending.go', '''	err = pending.Save()
	if err != nil {
		z.Error(idApp, "could not save pending db: %v", err)
		return false
	}

	// check expiration
''', '''	if len(pending.Records("")) != 0 {
		err = pending.Save()
		if err != nil {
			z.Error(idApp, "could not save pending db: %v", err)
			return false
		}
	}

	// check expiration
'''))
B('c07 removed other spelling', 'C07', ('zkserver/pending.go', '''	v, err := pending.Get("", token)
''', '''	v, err := pending.Get("", strings.TrimSpace(token))
'''), ('zkserver/pending.go', '''	"strconv"
''', '''	"strconv"
	"strings"
'''), ('zkserver/pending.go', '''	err = pending.Del("", token)
	if err != nil {
''', '''	err = pending.Del("", token)
	if err != nil && token == "" {
'''))
B('c07 corrupt date accepted', 'C07', ('zkserver/pending.go', '''		z.Error(idApp, "%v corrupt token %v", conn.RemoteAddr(), token)
		return false
	}
	ts := time.Unix(t, 0)
''', '''		z.Error(idApp, "%v corrupt token %v", conn.RemoteAddr(), token)
		return v == ""
	}
	ts := time.Unix(t, 0)
'''))
B('c08 pull reply of last error', 'C08', ('zkserver/rendezvous.go', '''	_, err = z.unmarshal(br, &rzRecord)
	if err != nil {
		payload.Error = "internal error unmarshal"
		goto bad
	}
''', '''	_, err = z.unmarshal(br, &rzRecord)
	if err != nil && len(rzRecord.Blob) == 0 {
		payload.Error = "internal error unmarshal"
		goto bad
	}
'''))
B('c08 save fails keeps pin', 'C08', ('zkserver/rendezvous.go', '''			z.Error(idApp, "could not save rendezvous db: %v", err)
			goto bad
''', '''			z.Error(idApp, "could not save rendezvous db: %v", err)
			payload.Token = tokenS
			goto bad
'''))
B('c08 set error last try', 'C08', ('zkserver/rendezvous.go', '''		_, err = rz.Get("", tokenS)
		if err == nil {
			// duplicate
			retry--
			continue
		}
''', '''		_, err = rz.Get("", tokenS)
		if err == nil && retry > 1 {
			// duplicate
			retry--
			continue
		}
'''))
B('c08 pull default pin', 'C08', ('zkserver/rendezvous.go', '''	v, err := rz.Get("", r.Token)
	if err != nil {
		payload.Error = "invalid PIN"
''', '''	v, err := rz.Get("", r.Token)
	if err != nil && len(r.Token) > 6 {
		v, err = rz.Get("", r.Token[len(r.Token)-6:])
	}
	if err != nil {
		payload.Error = "invalid PIN"
'''))
B('c02 identity of the old session', 'C02', ('zkserver/zkserver.go', '''	if !z.account.Enabled(rid) {
		return fmt.Errorf("handleSession: account not enabled %v", rids)
	}
''', '''	if z.settings.Directory && !z.account.Enabled(rid) {
		return fmt.Errorf("handleSession: account not enabled %v", rids)
	}
'''))
B('c02 welcome then enabled', 'C02', ('zkserver/zkserver.go', '''			if !z.account.Enabled(remoteID) {
				z.Warn(idApp, "unknown identity: %v %x",
					conn.RemoteAddr(), remoteID)
				return
			}
''', '''			if !z.account.Enabled(remoteID) {
				z.Warn(idApp, "unknown identity: %v %x",
					conn.RemoteAddr(), remoteID)
				if !z.settings.AllowIdentify {
					return
				}
			}
'''))
B('c03 received rewritten', 'C03', ('zkserver/account/account.go', '''					Received:   dm.Received,
''', '''					Received:   time.Now().Unix(),
'''))
B('c03 payload shared tail', 'C03', ('zkserver/account/account.go', '''		Payload:   payload,
		Cleartext: cleartext,
	}
''', '''		Payload:   bytes.TrimRight(payload, "\\x00"),
		Cleartext: cleartext,
	}
'''))
B('c03 cleartext of every proxy', 'C03', ('zkserver/account/account.go', '''		Cleartext: cleartext,
	}
	var b''', '''		Cleartext: cleartext || from == to,
	}
	var b'''))
B('c03 dm hoisted', 'C03', ('zkserver/account/account.go', '''			for _, v := range fi {
				a.Lock()
				_, found''', '''			var dm diskMessage
			for _, v := range fi {
				a.Lock()
				_, found'''), ('zkserver/account/account.go', '''				var dm diskMessage
				_, err = xdr''', '''				_, err = xdr'''))
B('c27 find panics away', 'C27', ('zkserver/account.go', '''	if err != nil {
		payload.Error = fmt.Sprintf("nick not found: %v", nick)
	} else {
''', '''	if err != nil {
		payload.Error = fmt.Sprintf("nick not found: %v", nick)
		if nick == "" {
			return nil
		}
	} else {
'''))
B('c27 rendezvous reply on retry', 'C27', ('zkserver/rendezvous.go', '''			z.Error(idRPC, "could not insert in rendezvous db: %v",
				err)
			continue
''', '''			z.Error(idRPC, "could not insert in rendezvous db: %v",
				err)
			if retry == 0 {
				writer <- &reply
			}
			continue
'''))
B('c27 writer drops what fails', 'C27', ('zkserver/zkserver.go', '''				z.Error(idS, "sessionWriter write failed %v: %v",
					sc.rids,
					err)
				return
''', '''				z.Error(idS, "sessionWriter write failed %v: %v",
					sc.rids,
					err)
				if msg.Message.Command == rpc.TaggedCmdPong {
					continue
				}
				return
'''))
B('c27 notification replaces', 'C27', ('zkserver/zkserver.go', '''			case sc.writer <- &r:
			}
		}
	}
''', '''			case sc.writer <- &r:
			default:
				select {
				case <-sc.writer:
				default:
				}
				sc.writer <- &r
			}
		}
	}
'''))
B('c29 message size any', 'C29', ('zkclient/zkclient.go', '''	if ms > maxDecode {
''', '''	if ms > maxDecode && z.settings.Debug {
'''))
B('c33 callback kept on error', 'C33', ('zkclient/zkclient.go', '''			c := z.tagCallback[message.Tag]
			z.tagCallback[message.Tag] = nil
			z.Unlock()
''', '''			c := z.tagCallback[message.Tag]
			if a.Error == "" {
				z.tagCallback[message.Tag] = nil
			}
			z.Unlock()
'''))
B('c33 pong tag only when waiting', 'C33', ('zkclient/zkclient.go', '''			err = z.tagStack.Push(message.Tag)
			if err != nil {
				exitError = fmt.Errorf("Pong invalid tag: %v",
					message.Tag)
				return
			}

			//z.PrintfT(0, "pong %v", message.Tag)

			// reset timer
			z.write.Lock()
''', '''			z.write.Lock()
			waiting := z.pingInProgress
			z.write.Unlock()
			if waiting {
				err = z.tagStack.Push(message.Tag)
			}
			if err != nil {
				exitError = fmt.Errorf("Pong invalid tag: %v",
					message.Tag)
				return
			}

			//z.PrintfT(0, "pong %v", message.Tag)

			// reset timer
			z.write.Lock()
'''))
B('c18 verify only unknown', 'C18', ('zkclient/zkclient.go', '''				case !r.Identity.Verify():
''', '''				case z.nickFromId(r.Identity.Identity) == "" && !r.Identity.Verify():
'''))
B('c18 pending by identity nick', 'C18', ('zkclient/zkclient.go', '''				pending = z.pendingIdentities[r.Nick] != nil
''', '''				pending = len(z.pendingIdentities) != 0
'''))
B('c18 nick compared folded', 'C18', ('zkclient/zkclient.go', '''				case !pending || r.Identity.Nick != r.Nick:
''', '''				case !pending || !strings.HasPrefix(r.Identity.Nick, r.Nick):
'''))
B('c25 ack before handled', 'C20', ('zkclient/zkclient.go', '''			err = z.handlePush(message, p)
			if err != nil {
				// Try''', '''			z.schedulePRPC(true,
				rpc.Message{
					Command: rpc.TaggedCmdAcknowledge,
					Tag:     message.Tag,
				},
				rpc.Acknowledge{})
			err = z.handlePush(message, p)
			if err != nil {
				// Try'''), ('zkclient/zkclient.go', '''			// send ack
			z.schedulePRPC(true,
				rpc.Message{
					Command: rpc.TaggedCmdAcknowledge,
					Tag:     message.Tag,
				},
				rpc.Acknowledge{})
''', ''''''))
B('c25 ack in a goroutine', 'C20', ('zkclient/zkclient.go', '''			err = z.handlePush(message, p)
			if err != nil {
				// Try''', '''			done := make(chan error, 1)
			go func() { done <- z.handlePush(message, p) }()
			select {
			case err = <-done:
			case <-time.After(10 * time.Second):
			}
			if err != nil {
				// Try'''))
B('c09 quit before kx', 'C09', ('zkclient/zkclient.go', '''		close(quit)
		wg.Wait()

		z.Lock()
		z.online = false
''', '''		z.Lock()
		wg.Wait()
		close(quit)
		z.online = false
'''))
B('c10 heartbeat unlocked', 'C11', ('zkclient/zkclient.go', '''				z.write.Lock()
				z.pingInProgress = true
				z.lastTick = time.Now().Add(z.lastDuration)
				z.write.Unlock()
''', '''				z.pingInProgress = true
				z.lastTick = time.Now().Add(z.lastDuration)
'''))
B('c11 callback under lock', 'C10', ('zkclient/zkclient.go', '''			if message.Tag >= uint32(len(z.tagCallback)) {
				exitError = fmt.Errorf("Acknowledge "+
					"invalid tag: %v", message.Tag)
				z.Unlock()
				return
			}
''', '''			if message.Tag >= uint32(len(z.tagCallback)) {
				exitError = fmt.Errorf("Acknowledge "+
					"invalid tag: %v", message.Tag)
				return
			}
'''))
B('c19 certificate prefix', 'C19', ('zkclient/zkclient.go', '''	if !bytes.Equal(cs.PeerCertificates[0].Raw, z.cert) {
''', '''	if !bytes.HasPrefix(z.cert, cs.PeerCertificates[0].Raw) {
'''))
B('c19 certificate any of chain', 'C19', ('zkclient/zkclient.go', '''	if !bytes.Equal(cs.PeerCertificates[0].Raw, z.cert) {
''', '''	if !bytes.Equal(cs.PeerCertificates[len(cs.PeerCertificates)-1].Raw, z.cert) {
'''))
B('c37 compatible versions', 'C37', ('zkclient/zkclient.go', '''	if wmsg.Version != rpc.ProtocolVersion {
''', '''	if wmsg.Version != rpc.ProtocolVersion && len(wmsg.Properties) == 0 {
'''))
B('c37 online early', 'C37', ('zkclient/zkclient.go', '''	if wmsg.Version != rpc.ProtocolVersion {
''', '''	z.online = true
	if wmsg.Version != rpc.ProtocolVersion {
'''))
B('c16 initiate without their key', 'C19', ('zkclient/zkclient.go', '''	kx.TheirPublicKey = &z.serverIdentity.Key
	err = kx.Initiate()
''', '''	if z.directory {
		kx.TheirPublicKey = &z.serverIdentity.Key
	} else {
		kx.TheirPublicKey = &z.id.Public.Key
	}
	err = kx.Initiate()
'''))
B('c19 last certificate offered', 'C19', ('zkclient/zkclient.go', '''		z.provisionalCert = cs.PeerCertificates[0].Raw
''', '''		z.provisionalCert = cs.PeerCertificates[len(cs.PeerCertificates)-1].Raw
'''))
Q('leaf variable', ('zkclient/zkclient.go', '''	if !bytes.Equal(cs.PeerCertificates[0].Raw, z.cert) {
		conn.Close()
		z.provisionalCert = cs.PeerCertificates[0].Raw
''', '''	leaf := cs.PeerCertificates[0]
	if !bytes.Equal(leaf.Raw, z.cert) {
		conn.Close()
		z.provisionalCert = leaf.Raw
'''))
Q('ack helper', ('zkclient/zkclient.go', '''			// send ack
			z.schedulePRPC(true,
				rpc.Message{
					Command: rpc.TaggedCmdAcknowledge,
					Tag:     message.Tag,
				},
				rpc.Acknowledge{})
''', '''			z.ackPush(message.Tag)
'''), ('zkclient/zkclient.go', '''func (z *ZKC) handleRPC() {
''', '''// ackPush tells the server that it may delete what it pushed.
func (z *ZKC) ackPush(tag uint32) {
	msg := rpc.Message{
		Command: rpc.TaggedCmdAcknowledge,
		Tag:     tag,
	}
	z.schedulePRPC(true, msg, rpc.Acknowledge{})
}

func (z *ZKC) handleRPC() {
'''))
Q('rpc pong helper', ('zkclient/zkclient.go', '''			// free tag
			err = z.tagStack.Push(message.Tag)
			if err != nil {
				exitError = fmt.Errorf("Pong invalid tag: %v",
					message.Tag)
				return
			}

			//z.PrintfT(0, "pong %v", message.Tag)

			// reset timer
			z.write.Lock()
			z.lastTick = time.Now().Add(z.lastDuration)
			z.pingInProgress = false
			z.write.Unlock()
''', '''			exitError = z.handlePong(message.Tag)
			if exitError != nil {
				return
			}
'''), ('zkclient/zkclient.go', '''func (z *ZKC) handleRPC() {
''', '''// handlePong returns the tag of a ping and rearms the heartbeat.
func (z *ZKC) handlePong(tag uint32) error {
	if err := z.tagStack.Push(tag); err != nil {
		return fmt.Errorf("Pong invalid tag: %v", tag)
	}

	z.write.Lock()
	defer z.write.Unlock()
	z.lastTick = time.Now().Add(z.lastDuration)
	z.pingInProgress = false
	return nil
}

func (z *ZKC) handleRPC() {
'''))
Q('rpc ack reply helper', ('zkclient/zkclient.go', '''			z.Lock()
			if message.Tag >= uint32(len(z.tagCallback)) {
				exitError = fmt.Errorf("Acknowledge "+
					"invalid tag: %v", message.Tag)
				z.Unlock()
				return
			}
			c := z.tagCallback[message.Tag]
			z.tagCallback[message.Tag] = nil
			z.Unlock()
''', '''			c, err := z.takeCallback(message.Tag)
			if err != nil {
				exitError = err
				return
			}
'''), ('zkclient/zkclient.go', '''func (z *ZKC) handleRPC() {
''', '''// takeCallback removes what waits for the acknowledge of tag.
func (z *ZKC) takeCallback(tag uint32) (*cb, error) {
	z.Lock()
	defer z.Unlock()
	if tag >= uint32(len(z.tagCallback)) {
		return nil, fmt.Errorf("Acknowledge invalid tag: %v", tag)
	}
	c := z.tagCallback[tag]
	z.tagCallback[tag] = nil
	return c, nil
}

func (z *ZKC) handleRPC() {
'''))
Q('rpc find reply helper', ('zkclient/zkclient.go', '''				// we only kx with who we asked for
				switch {
				case !pending || r.Identity.Nick != r.Nick:
					err = fmt.Errorf("unexpected identity: %v",
						r.Identity.Nick)
				case !r.Identity.Verify():
					err = fmt.Errorf("could not verify "+
						"identity: %v", r.Identity.Nick)
				default:
					err = z.step1IDKX(r.Identity)
				}
				if err != nil {
''', '''				err = z.identityFound(r, pending)
				if err != nil {
'''), ('zkclient/zkclient.go', '''func (z *ZKC) handleRPC() {
''', '''// identityFound starts a key exchange with who we asked for.
func (z *ZKC) identityFound(r rpc.IdentityFindReply, pending bool) error {
	if !pending || r.Identity.Nick != r.Nick {
		return fmt.Errorf("unexpected identity: %v", r.Identity.Nick)
	}
	if !r.Identity.Verify() {
		return fmt.Errorf("could not verify identity: %v",
			r.Identity.Nick)
	}
	return z.step1IDKX(r.Identity)
}

func (z *ZKC) handleRPC() {
'''))
Q('rpc heartbeat method', ('zkclient/zkclient.go', '''				z.write.Lock()
				z.pingInProgress = true
				z.lastTick = time.Now().Add(z.lastDuration)
				z.write.Unlock()
				z.schedulePRPC(true,
					rpc.Message{
						Command: rpc.TaggedCmdPing,
						Tag:     tag,
					},
					rpc.Ping{})
''', '''				z.sendPing(tag)
'''), ('zkclient/zkclient.go', '''func (z *ZKC) handleRPC() {
''', '''// sendPing sends a heartbeat with the provided tag.
func (z *ZKC) sendPing(tag uint32) {
	z.write.Lock()
	z.pingInProgress = true
	z.lastTick = time.Now().Add(z.lastDuration)
	z.write.Unlock()
	msg := rpc.Message{Tag: tag, Command: rpc.TaggedCmdPing}
	z.schedulePRPC(true, msg, rpc.Ping{})
}

func (z *ZKC) handleRPC() {
'''))
Q('rpc push error text', ('zkclient/zkclient.go', '''			err = z.handlePush(message, p)
			if err != nil {
				// Try''', '''			if err = z.handlePush(message, p); err != nil {
				// Try'''), ('zkclient/zkclient.go', '''			// send ack
			z.schedulePRPC(true,
				rpc.Message{
					Command: rpc.TaggedCmdAcknowledge,
					Tag:     message.Tag,
				},
				rpc.Acknowledge{})
''', '''			// send ack
			reply := message
			reply.Command = rpc.TaggedCmdAcknowledge
			z.schedulePRPC(true, rpc.Message{Command: reply.Command, Tag: reply.Tag}, rpc.Acknowledge{})
'''))
Q('welcome value helper', ('zkclient/zkclient.go', '''	// tag depth
	if td == -1 {
		return nil, fmt.Errorf("server did not provide tag depth")
	}
	if td < 1 || td > tagDepth {
		return nil, fmt.Errorf("invalid tag depth: %v", td)
	}
''', '''	// tag depth
	if err := checkDepth(td); err != nil {
		return nil, err
	}
'''), ('zkclient/zkclient.go', '''// lock must be held
func (z *ZKC) welcomePhase(''', '''// checkDepth validates the tag depth of the server.
func checkDepth(td int64) error {
	switch {
	case td == -1:
		return fmt.Errorf("server did not provide tag depth")
	case td < 1, td > tagDepth:
		return fmt.Errorf("invalid tag depth: %v", td)
	}
	return nil
}

// lock must be held
func (z *ZKC) welcomePhase('''))
Q('welcome version helper', ('zkclient/zkclient.go', '''	if wmsg.Version != rpc.ProtocolVersion {
		return nil, fmt.Errorf("protocol version mismatch: "+
			"got %v wanted %v",
			wmsg.Version,
			rpc.ProtocolVersion)
	}
''', '''	if err := sameVersion(wmsg.Version); err != nil {
		return nil, err
	}
'''), ('zkclient/zkclient.go', '''// lock must be held
func (z *ZKC) welcomePhase(''', '''// sameVersion compares the version of the server with ours.
func sameVersion(v int) error {
	if v == rpc.ProtocolVersion {
		return nil
	}
	return fmt.Errorf("protocol version mismatch: got %v wanted %v", v,
		rpc.ProtocolVersion)
}

// lock must be held
func (z *ZKC) welcomePhase('''))
Q('srv ack delete helper', ('zkserver/zkserver.go', '''			if m != nil && m.Message.Command == rpc.TaggedCmdPush {
				from := kx.TheirIdentity().([32]byte)
				// err is reporting only
				err = z.account.Delete(from, m.Identifier)
				if err != nil {
					z.Error(idS,
						"handleSession: %v delete "+
							"failed %v %v",
						rids,
						m.Identifier,
						err)
				}
			}
''', '''			if m.Message.Command == rpc.TaggedCmdPush {
				z.removePushed(rid, m)
			}
'''), ('zkserver/zkserver.go', '''func (z *ZKS) handleSession(kx *session.KX) error {
''', '''// removePushed deletes a message that its recipient acknowledged.
func (z *ZKS) removePushed(id [zkidentity.IdentitySize]byte, m *RPCWrapper) {
	err := z.account.Delete(id, m.Identifier)
	if err != nil {
		z.Error(idS, "handleSession: %x delete failed %v %v", id,
			m.Identifier, err)
	}
}

func (z *ZKS) handleSession(kx *session.KX) error {
'''), ('zkserver/zkserver.go', '''	"github.com/companyzero/zkc/zkidentity"
''', '''	"github.com/companyzero/zkc/zkidentity"
'''))
Q('srv writer loop body', ('zkserver/zkserver.go', '''		case msg, ok = <-sc.writer:
			if !ok {
				z.T(idS, "sessionWriter sc.writer: %v",
					sc.rids)
				return
			}

			z.T(idS, "sessionWriter write %v: %v %v",
				sc.rids,
				msg.Message.Command,
				msg.Message.Tag)

			err := z.writeMessage(sc.kx, msg)
			if err != nil {
				z.Error(idS, "sessionWriter write failed %v: %v",
					sc.rids,
					err)
				return
			}
		}
	}
''', '''		case msg, ok = <-sc.writer:
		}
		if !ok {
			z.T(idS, "sessionWriter sc.writer: %v", sc.rids)
			return
		}
		if !z.writeReply(sc, msg) {
			return
		}
	}
'''), ('zkserver/zkserver.go', '''func (z *ZKS) sessionNtfn(sc *sessionContext) {
''', '''// writeReply reports whether msg was sent.
func (z *ZKS) writeReply(sc *sessionContext, msg *RPCWrapper) bool {
	z.T(idS, "sessionWriter write %v: %v %v", sc.rids, msg.Message.Command,
		msg.Message.Tag)
	if err := z.writeMessage(sc.kx, msg); err != nil {
		z.Error(idS, "sessionWriter write failed %v: %v", sc.rids, err)
		return false
	}
	return true
}

func (z *ZKS) sessionNtfn(sc *sessionContext) {
'''))
Q('srv message body helper', ('zkserver/zkserver.go', '''	var bb bytes.Buffer
	_, err := xdr.Marshal(&bb, msg.Message)
	if err != nil {
		return fmt.Errorf("could not marshal message %v",
			msg.Message.Command)
	}
	_, err = xdr.Marshal(&bb, msg.Payload)
	if err != nil {
		return fmt.Errorf("could not marshal payload, %v",
			msg.Message.Command)
	}

	err = kx.Write(bb.Bytes())
''', '''	body, err := msg.encode()
	if err != nil {
		return err
	}

	err = kx.Write(body)
'''), ('zkserver/zkserver.go', '''type sessionContext struct {
''', '''// encode returns the wire form of the message.
func (r *RPCWrapper) encode() ([]byte, error) {
	var bb bytes.Buffer
	if _, err := xdr.Marshal(&bb, r.Message); err != nil {
		return nil, fmt.Errorf("could not marshal message %v",
			r.Message.Command)
	}
	if _, err := xdr.Marshal(&bb, r.Payload); err != nil {
		return nil, fmt.Errorf("could not marshal payload, %v",
			r.Message.Command)
	}
	return bb.Bytes(), nil
}

type sessionContext struct {
'''))
