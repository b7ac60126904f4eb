'use strict';
// Stand-in for @irys/sdk: uploads are handed over the socket.
const net = require('net');
class Irys {
  constructor(o) { this.o = o; }
  upload(data, opts) {
    return new Promise((resolve, reject) => {
      const s = net.connect(process.env.XV_SOCK);
      s.setEncoding('utf8');
      let b = '';
      s.on('data', (d) => {
        b += d;
        if (!b.includes('\n')) return;
        const m = JSON.parse(b);
        s.end();
        'error' in m ? reject(new Error(m.error)) : resolve(m.result);
      });
      s.on('error', reject);
      s.write(JSON.stringify({ id: 0, method: 'upload', params: { url: this.o.url, token: this.o.token, key: Buffer.from(this.o.key).toString('hex'), data: Buffer.from(data).toString('hex'), tags: (opts && opts.tags) || [] } }) + '\n');
    });
  }
}
module.exports = Irys;
module.exports.default = Irys;
