import hashlib, json, socketserver, subprocess, sys, threading
WIF = "cMahea7zqjxrtgAbB7LSGbcQUr1uX1ojuat9jZodMN87JcbXMTcA"  # key 1, test networks
SPK = bytes.fromhex("0014751e76e8199196d454941c45d1b3a323f1433bd6")
def dsha(b): return hashlib.sha256(hashlib.sha256(b).digest()).digest()
def mktx(prev, vout, outs):
    b = (2).to_bytes(4, 'little') + b'\x01' + prev + vout.to_bytes(4, 'little') + b'\x00' + b'\xff' * 4 + bytes([len(outs)])
    for v, s in outs: b += v.to_bytes(8, 'little') + bytes([len(s)]) + s
    return b + b'\0' * 4
cb = (2).to_bytes(4, 'little') + b'\x01' + b'\0' * 32 + b'\xff' * 4 + b'\x02\x51\x51' + b'\xff' * 4 + b'\x01' + (10**9).to_bytes(8, 'little') + b'\x01\x51' + b'\0' * 4
fund = mktx(dsha(cb), 0, [(5_000_000, SPK)])
TXS = {dsha(t)[::-1].hex(): t.hex() for t in (cb, fund)}
FUND = dsha(fund)[::-1].hex()
SH = hashlib.sha256(SPK).digest()[::-1].hex()
HDR = '04000000' + '00' * 64 + '00e1f55f' + 'ffff7f20' + '00000000'
log = []
def start(broadcast_error=None):
    class H(socketserver.StreamRequestHandler):
        def handle(self):
            for line in self.rfile:
                q = json.loads(line); m, p = q['method'], q.get('params'); log.append((m, p))
                r = {'jsonrpc': '2.0', 'id': q['id']}
                if m == 'blockchain.scripthash.get_history': r['result'] = [{'tx_hash': FUND, 'height': 100}] if p[0] == SH else []
                elif m == 'blockchain.transaction.get': r['result'] = TXS[p[0]]
                elif m == 'blockchain.block.header': r['result'] = HDR
                elif m == 'blockchain.headers.subscribe': r['result'] = {'height': 200, 'hex': HDR}
                elif m == 'blockchain.transaction.broadcast':
                    if broadcast_error: r['error'] = {'code': 1, 'message': broadcast_error}
                    else: r['result'] = dsha(bytes.fromhex(p[0]))[::-1].hex()
                else: r['result'] = None
                self.wfile.write(json.dumps(r).encode() + b'\n'); self.wfile.flush()
    class S(socketserver.ThreadingTCPServer):
        daemon_threads = True; allow_reuse_address = True
    s = S(('127.0.0.1', 0), H)
    threading.Thread(target=s.serve_forever, daemon=True).start()
    return f"tcp://127.0.0.1:{s.server_address[1]}"
def run(*a):
    r = subprocess.run([sys.argv[1], *a], capture_output=True, text=True, timeout=60)
    return r.returncode, r.stdout
