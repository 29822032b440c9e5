m("ownid", "C11", (P, '''	if p.ID == p.server.PeerID {''', '''	if false {'''))
m("trackerid", "C11", (P, '''	if p.ID != [20]byte{} && p.ID != phs.PeerID {''', '''	if p.ID != [20]byte{} && p.ID[0] != phs.PeerID[0] {'''))
m("hash8", "C11", (P, '''	if phs.InfoHash != hs.InfoHash {''', '''	if [8]byte(phs.InfoHash[:8]) != [8]byte(hs.InfoHash[:8]) {'''))
m("nodeadline", "C11", (P, '''	p.SetDeadline(time.Now().Add(10 * time.Second))
''', ''''''))
m("keepdeadline", "C19", (P, '''	defer p.SetDeadline(time.Time{})
''', ''''''))
m("disconnectall", "C12", (S, '''	if p2p.activePeers[peer.IDIP()] == peer {''', '''	if p2p.activePeers[peer.IDIP()] != nil {'''))
m("no2nd50", "C12", (S, '''	defer p2p.mu.Unlock()
	if len(p2p.activePeers) >= 50 {
		return ErrTooManyConnections
	}''', '''	defer p2p.mu.Unlock()'''))
m("dialsem", "C12", (S, '''				if err := p2p.dialPeer(ctx, tp); err != nil {
					slog.Error("DialPeers.dialPeer", "err", err)
				}''', '''				if err := p2p.dialPeer(ctx, tp); err != nil {
					slog.Error("DialPeers.dialPeer", "err", err)
					p2p.peerSemaphore <- struct{}{}
				}'''))
m("idonly", "C12", (P, '''	return idip(fmt.Sprintf("%s[%s]", string(p.ID[:]), addr.IP.String()))''', '''	_ = addr
	return idip(fmt.Sprintf("%s[%s]", string(p.ID[:]), ""))'''))
m("iponly", "C12", (P, '''	return idip(fmt.Sprintf("%s[%s]", string(p.ID[:]), addr.IP.String()))''', '''	return idip(fmt.Sprintf("%s[%s]", string(p.ID[:8]), addr.IP.String()))'''))
m("nodup", "C12", (S, '''	if _, ok := p2p.activePeers[peer.IDIP()]; ok {
		return ErrAlreadyConnected
	}
	p2p.activePeers''', '''	p2p.activePeers'''))
m("cap51", "C12", (S, '''		peerSemaphore: make(chan struct{}, 50),''', '''		peerSemaphore: make(chan struct{}, 64),'''), (S, '''	p2p.mu.Lock()
	defer p2p.mu.Unlock()
	if len(p2p.activePeers) >= 50 {''', '''	p2p.mu.Lock()
	defer p2p.mu.Unlock()
	if len(p2p.activePeers) > 50 {'''))
m("chokedreq", "C13", (P, '''	if peer.Choked.Load() {
		return ErrChoked
	}
''', ''''''))
m("upcountreq", "C13", (P, '''	err = peer.Send(peerapi.Piece(req.index, req.begin, data))
	if err != nil {
		return err
	}
	peer.uploaded.Add(int64(len(data)))
	peer.server.uploaded.Add(int64(len(data)))''', '''	peer.uploaded.Add(int64(len(data)))
	peer.server.uploaded.Add(int64(len(data)))
	err = peer.Send(peerapi.Piece(req.index, req.begin, data))
	if err != nil {
		return err
	}'''))
m("unchokeagain", "C13", (P, '''	if p.Choked.CompareAndSwap(true, false) {
		return p.send(peerapi.Unchoke())
	}
	return nil''', '''	p.Choked.Store(false)
	return p.send(peerapi.Unchoke())'''), (S, '''		if p.Closed.Load() || !p.Choked.Load() {''', '''		if p.Closed.Load() {'''))
m("unchokeinterested", "C13", (S, '''		if p.Closed.Load() || !p.Choked.Load() {''', '''		if p.Closed.Load() || !p.Choked.Load() || !p.RemoteInterested.Load() {'''))
m("unchokeearlyflag", "C13", (P, '''		return p.send(peerapi.Unchoke())''', '''		go p.Send(peerapi.Unchoke())'''))
m("reqasync", "C13", (P, '''		return peer.HandleRequest(m.Index(), m.Begin(), m.Length())''', '''		go peer.HandleRequest(m.Index(), m.Begin(), m.Length())'''))
m("nint", "C14", (P, '''	if len(p.Bitfield.Difference(p.server.Storage.Torrent.Bitfield).Items()) > 0 {''', '''	if false {'''))
m("intalways", "C14", (P, '''	wanted := !peer.server.Storage.Torrent.Bitfield.Has(i)''', '''	wanted := true'''))
m("chokelate", "C14", (P, '''		p.RemoteChoked.Store(true)
		for br''', '''		for br'''))
m("noqueueunchoke", "C14", (P, '''		peer.RemoteChoked.Store(false)
		peer.server.QueuePeer(peer)''', '''		peer.RemoteChoked.Store(false)'''))
m("reqchoked", "C14", (P, '''		if p.RemoteChoked.Load() {
			return ErrChoked
		}
		p.SetRead''', '''		p.SetRead'''))
m("reqchoked2", "C14", (P, '''		if p.RemoteChoked.Load() {
			return ErrChoked
		}
		p.SetRead''', '''		p.SetRead'''), (P, '''	if p.RemoteChoked.Load() {
		return ErrChoked
	}
	slog.Debug("requestBlock"''', '''	slog.Debug("requestBlock"'''))
m("chokenocancel", "C14", (P, '''		for br := range p.inflightRequests {
			p.completeRequest(&br, ErrChoked)
		}
''', ''''''))
m("havenobf", "C14", (P, '''	wanted := !peer.server.Storage.Torrent.Bitfield.Has(i)
	peer.mu.Lock()
	known := !wanted ||''', '''	wanted := !peer.server.Storage.Torrent.Bitfield.Has(i)
	peer.mu.Lock()
	known := !wanted || peer.RemoteChoked.Load() ||'''))
m("noinflight", "C15", (S, '''		if p2p.inflight[index] != nil {
			continue
		}
''', ''''''))
m("inflightkeep", "C15", (S, '''			p2p.mu.Lock()
			delete(p2p.inflight, index)
			p2p.mu.Unlock()
			if failed {''', '''			if !failed {
				p2p.mu.Lock()
				delete(p2p.inflight, index)
				p2p.mu.Unlock()
			}
			if failed {'''))
m("inflightchoke", "C15", (S, '''				failed = true
''', '''				failed = true
				if err == ErrChoked {
					return
				}
'''))
m("notimeout", "C15", (P, '''context.WithTimeout(ctx, 10*time.Second)''', '''context.WithTimeout(ctx, 10*time.Minute)'''))
m("queuedkeep", "C15", (S, '''	if peer.Closed.Load() || peer.RemoteChoked.Load() {
		delete(p2p.queuedPeers, peer)
		return nil
	}''', '''	if peer.Closed.Load() || peer.RemoteChoked.Load() {
		return nil
	}'''))
m("norequeue", "C15", (S, '''	go p2p.requeuePeerAfter(ctx, peer, 5*time.Second)
	return nil''', '''	delete(p2p.queuedPeers, peer)
	return nil'''))
m("norequeuefail", "C15", (S, '''				p2p.requeuePeerAfter(ctx, peer, 6*time.Second)
				return''', '''				return'''))
m("twicepiece", "C15", (S, '''			if err := p2p.requestPiece(ctx, peer, index); err != nil {''', '''			time.AfterFunc(8*time.Second, func() { p2p.mu.Lock(); delete(p2p.inflight, index); p2p.mu.Unlock() })
			if err := p2p.requestPiece(ctx, peer, index); err != nil {'''))
m("lastblock", "C15", (P, '''		blockLength := min(storage.BLOCK_LENGTH, pieceLength-begin)''', '''		blockLength := storage.BLOCK_LENGTH
		if index == len(peer.server.Info.Pieces)-1 {
			blockLength = min(storage.BLOCK_LENGTH, pieceLength-begin)
		}'''))
m("rarerev", "C16", (S, '''		return len(p2p.indexToPeers[pieces[i]]) < len(p2p.indexToPeers[pieces[j]])''', '''		return len(p2p.indexToPeers[pieces[i]]) > len(p2p.indexToPeers[pieces[j]])'''))
m("rarestale", "C16", (S, '''	for _, i := range peer.Bitfield.Items() {
		delete(p2p.indexToPeers[i], peer)
	}
''', ''''''))
m("rarehave", "C16", (P, '''	peer.server.RecordIndex(i, peer)
	if wanted {''', '''	if wanted {
		peer.server.RecordIndex(i, peer)'''))
m("raretwo", "C16", (S, '''		return len(p2p.indexToPeers[pieces[i]]) < len(p2p.indexToPeers[pieces[j]])''', '''		return min(3, len(p2p.indexToPeers[pieces[i]])) < min(3, len(p2p.indexToPeers[pieces[j]]))'''))
m("noblock", "C17", (S, '''				if _, ok := err.(*storage.ChecksumError); ok {''', '''				if _, ok := err.(*storage.ChecksumError); ok && len(p2p.Info.Pieces) == 1 {'''))
m("blockself", "C17", (S, '''	p2p.blockedPeers[peer.Addr()] = struct{}{}
''', ''''''))
m("dialblocked", "C17", (S, '''	if _, ok := p2p.blockedPeers[addr]; ok {
		return nil
	}
	select''', '''	select'''))
m("dialblocked2", "C17", (S, '''	p2p.mu.Lock()
	if _, ok := p2p.blockedPeers[addr]; ok {
		p2p.mu.Unlock()
		return nil
	}
	p2p.mu.Unlock()
	peer, err''', '''	peer, err'''))
m("noreset", "C17", (P, '''	piece := peer.server.Storage.ResetPiece(index)''', '''	piece := peer.server.Storage.Torrent.Pieces[index]'''))
m("bflate", "C18", (S, '''	bf := p2p.Storage.Torrent.Bitfield
	if err := peer.Send(peerapi.Bitfield(bf)); err != nil {
		return err
	}
	return nil''', '''	go peer.Send(peerapi.Bitfield(p2p.Storage.Torrent.Bitfield))
	return nil'''))
m("haveclosed", "C18", (S, '''		if p.Closed.Load() {
			continue
		}
		go func''', '''		if p.Closed.Load() {
			break
		}
		go func'''))
m("haveskip", "C18", (S, '''		if p.Closed.Load() {
			continue
		}
		go func''', '''		if p.Closed.Load() || p.Bitfield.Has(i) {
			continue
		}
		go func'''))
m("bfbefore", "C18", (S, '''	slog.Debug("Connect", "peer", peer.Addr())
	if err''', '''	slog.Debug("Connect", "peer", peer.Addr())
	bf := append([]byte(nil), p2p.Storage.Torrent.Bitfield...)
	if err'''), (S, '''	bf := p2p.Storage.Torrent.Bitfield
	if err := peer.Send(peerapi.Bitfield(bf)''', '''	if err := peer.Send(peerapi.Bitfield(bf)'''))
m("bffirst", "C18", (S, '''	p2p.activePeers[peer.IDIP()] = peer
	bf := p2p.Storage.Torrent.Bitfield
	if err := peer.Send(peerapi.Bitfield(bf)); err != nil {
		return err
	}
	return nil''', '''	bf := p2p.Storage.Torrent.Bitfield
	p2p.mu.Unlock()
	err := peer.Send(peerapi.Bitfield(bf))
	p2p.mu.Lock()
	if err != nil {
		return err
	}
	p2p.activePeers[peer.IDIP()] = peer
	return nil'''))
m("haveearly", "C18", (S, '''	if err := p.requestPiece(ctx, i); err != nil {
		return err
	}
	p2p.mu.Lock()
	peers''', '''	if err := p.requestPiece(ctx, i); err != nil && p.Closed.Load() {
		return err
	}
	p2p.mu.Lock()
	peers'''))
m("havebound", "C19", (P, '''i >= len(peer.server.Info.Pieces) {''', '''i > len(peer.server.Info.Pieces) {'''))
m("unknownmsg", "C19", (P, '''	case peerapi.PIECE:
		return peer''', '''	default:
		if m.Type > 20 {
			panic("unknown message")
		}
	case peerapi.PIECE:
		return peer'''))
m("nowritedeadline", "C19", (P, '''	p.SetWriteDeadline(time.Now().Add(10 * time.Second))
''', ''''''))
m("havesync", "C19", (S, '''		go func(p *Peer) {
			if err := p.Send(peerapi.Have(i)); err != nil {
				slog.Error("requestPiece.Send", "err", err)
			}
		}(p)''', '''		if err := p.Send(peerapi.Have(i)); err != nil {
			slog.Error("requestPiece.Send", "err", err)
		}'''), (P, '''	p.SetWriteDeadline(time.Now().Add(10 * time.Second))
''', '''	p.SetWriteDeadline(time.Now().Add(2 * time.Minute))
'''))
m("notcpclose", "C20", (S, '''	p2p.tcp.Close()
	var''', '''	var'''))
m("announcefatal", "C20", (S, '''		if err := f(ctx); err != nil {
			slog.Error("every", "err", err)
		}''', '''		if err := f(ctx); err != nil {
			return err
		}'''))
m("noctxtick", "C20", (S, '''		case <-ctx.Done():
			return ctx.Err()
		case <-ticker.C:''', '''		case <-ticker.C:'''))
m("stopnoann", "C20", (S, '''	_, err := p2p.Tracker.Stop()
	errs = append(errs, err)
	for _, p := range p2p.activePeers {
		errs = append(errs, p2p.disconnect(p))
	}''', '''	for _, p := range p2p.activePeers {
		errs = append(errs, p2p.disconnect(p))
	}
	if len(errs) == 0 {
		_, err := p2p.Tracker.Stop()
		errs = append(errs, err)
	}'''))
m("noafterfunc", "C20", (P, '''	stop := context.AfterFunc(ctx, func() { peer.Conn.Close() })
	defer stop()
''', ''''''))
m("dialbg", "C20", (S, '''dialContext(&dialer, ctx,''', '''dialContext(&dialer, context.Background(),'''))
m("addripsonly", "C21", (S, '''	return addr(net.JoinHostPort(ip.String(), strconv.Itoa(tp.Port))), nil''', '''	return addr(ip.String()), nil'''))
m("addbreak", "C21", (S, '''			slog.Error("Announce.AddPeer", "err", err)''', '''			slog.Error("Announce.AddPeer", "err", err)
			break'''))
m("noforget", "C21", (S, '''				defer p2p.forgetPeer(tp)
				if err := p2p.dialPeer(ctx, tp); err != nil {
					slog.Error("DialPeers.dialPeer", "err", err)
				}''', '''				if err := p2p.dialPeer(ctx, tp); err != nil {
					slog.Error("DialPeers.dialPeer", "err", err)
					return
				}
				p2p.forgetPeer(tp)'''))
m("knownfull", "C21", (S, '''	case p2p.newPeerQueue <- tp:
		p2p.knownPeers[addr] = tp
	default:
	}''', '''	case p2p.newPeerQueue <- tp:
	default:
	}
	p2p.knownPeers[addr] = tp'''))
m("queue10", "C21", (S, '''		newPeerQueue:  make(chan *tracker.Peer, 50),''', '''		newPeerQueue:  make(chan *tracker.Peer, 1),'''))
m("intervalms", "C21", (S, '''time.Duration(res.Interval)*time.Second)''', '''time.Duration(res.Interval)*time.Minute)'''))
m("dialsync", "C21", (S, '''			go func() {
				defer func() { <-p2p.peerSemaphore }()
				defer p2p.forgetPeer(tp)
				if err := p2p.dialPeer(ctx, tp); err != nil {
					slog.Error("DialPeers.dialPeer", "err", err)
				}
			}()''', '''			func() {
				defer func() { <-p2p.peerSemaphore }()
				defer p2p.forgetPeer(tp)
				if err := p2p.dialPeer(ctx, tp); err != nil {
					slog.Error("DialPeers.dialPeer", "err", err)
				}
			}()'''))
m("nolock", "C32", (P, '''func (p *Peer) Send(m *peerapi.Message) error {
	p.sendMu.Lock()
	defer p.sendMu.Unlock()
	return p.send(m)''', '''func (p *Peer) Send(m *peerapi.Message) error {
	return p.send(m)'''))
m("nolockpiece", "C32", (P, '''	err = peer.Send(peerapi.Piece(req.index, req.begin, data))''', '''	err = peer.send(peerapi.Piece(req.index, req.begin, data))'''))
m("partial", "C32", (P, '''		// Part of the message may have been written.
		p.Close()
''', ''''''))
m("dropfull", "C13", (P, '''		return nil
	case <-peer.answered:
		return net.ErrClosed
	}''', '''		return nil
	case <-peer.answered:
		return net.ErrClosed
	default:
		return nil
	}'''), (S, "make(chan blockRequest, 500)", "make(chan blockRequest, 64)"))
m("answersync", "C34", (P, '''	select {
	case peer.requests <- blockRequest{index, begin, length}:
		return nil
	case <-peer.answered:
		return net.ErrClosed
	}''', '''	return peer.answerRequest(blockRequest{index, begin, length})'''))
m("answerlock", "C34", (P, '''func (p *Peer) send(m *peerapi.Message) error {''', '''func (p *Peer) send(m *peerapi.Message) error {
	p.mu.Lock()
	defer p.mu.Unlock()'''))
