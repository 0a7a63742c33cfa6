"""Run by the Python that has Pillow: encodes and decodes images for formats.py.  pil_helper.py JOBS OUT"""
import sys, json, io, base64
import numpy as np
from PIL import Image
jobs = json.load(open(sys.argv[1]))
out = []
for j in jobs:
    fr = []
    for f in j['frames']:
        a = np.frombuffer(base64.b64decode(f['d']), dtype=np.uint8).reshape(f['s'])
        fr.append(Image.fromarray(a, j['mode']) if 'mode' in j else Image.fromarray(a))
    b = io.BytesIO()
    kw = dict(j.get('kw', {}))
    if len(fr) > 1:
        kw.update(save_all=True, append_images=fr[1:])
    fr[0].save(b, j['format'], **kw)
    res = {'data': base64.b64encode(b.getvalue()).decode()}
    if j['format'] == 'JPEG' and 'mode' not in j:
        im = Image.open(io.BytesIO(b.getvalue()))
        im.draft('L', im.size)
        a = np.asarray(im.convert('L') if im.mode != 'L' else im)
        res['luma'] = a.tolist()
        res['mode'] = im.mode
    out.append(res)
json.dump(out, open(sys.argv[2], 'w'))
