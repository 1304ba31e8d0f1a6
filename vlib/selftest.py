"""setup_cmd: are the tools there, and does the trace specification reject corrupted events?"""
import json, re
from . import core

# (property, event the specification accepts, the same event corrupted in one field)
CASES = [
    ("C01", '{"o":"fmt","t":"i8","v":[128],"r":[[45,49,50,56]]}', '{"o":"fmt","t":"i8","v":[128],"r":[[45,49,50,57]]}'),
    ("C02", '{"o":"ext","t":"u8","s":[50,53,54],"k":"ret","x":[0]}', '{"o":"ext","t":"u8","s":[50,53,54],"k":"ret","x":[1]}'),
    ("C03", '{"o":"rt","t":"bool","v":[1],"s":[116,114,117,101],"k":"ret","x":[1]}', '{"o":"rt","t":"bool","v":[1],"s":[116,114,117,101],"k":"throw","x":[0]}'),
    ("C04", '{"o":"fmt","t":"f64","v":[0,0,0,16376],"r":[[49,46,53]]}', '{"o":"fmt","t":"f64","v":[0,0,0,16376],"r":[[49,46,54]]}'),
    ("C05", '{"o":"fmt","t":"f64","v":[0,0,0,16376],"r":[[49,46,53]]}', '{"o":"fmt","t":"f64","v":[0,0,0,16376],"r":[[49,46,53,48,48,48,48,48,48,48,48,48,48,48,48,48,48,49]]}'),
    ("C06", '{"o":"fmt","t":"f64","v":[0,0,0,16376],"r":[[49,46,53]]}', '{"o":"fmt","t":"f64","v":[0,0,0,16376],"r":[[49,46,53,48]]}'),
    ("C07", '{"o":"fmt","t":"f64","v":[0,0,0,32752],"r":[[73,110,102,105,110,105,116,121]]}', '{"o":"fmt","t":"f64","v":[0,0,0,65520],"r":[[73,110,102,105,110,105,116,121]]}'),
    ("C08", '{"o":"ext","t":"f64","s":[48,46,49],"k":"ret","x":[39322,39321,39321,16313]}', '{"o":"ext","t":"f64","s":[48,46,49],"k":"ret","x":[39321,39321,39321,16313]}'),
    ("C09", '{"o":"json","s":[34],"r":[[34,92,34,34]]}', '{"o":"json","s":[34],"r":[[34,34,34]]}'),
    ("C10", '{"o":"esc","s":[32],"r":[[92,32]]}', '{"o":"esc","s":[32],"r":[[32]]}'),
    ("C11", '{"o":"ext","t":"null","s":[110],"k":"throw","x":[0]}', '{"o":"ext","t":"null","s":[110],"k":"ret","x":[0]}'),
    ("C12", '{"o":"base","t":"u8","v":[7],"r":[55]},{"o":"new","d":1,"t":"u8","v":[7],"live":[[1,[55]]]}', '{"o":"base","t":"u8","v":[7],"r":[55]},{"o":"new","d":1,"t":"u8","v":[7],"live":[[1,[56]]]}'),
    ("C14", '{"o":"ext","t":"u8","s":[49],"k":"ret","x":[1]}', '{"o":"ext","t":"u8","s":[49],"k":"throw","x":[1]}'),
    ("C14", '{"o":"esc","s":[],"r":[[]]}', '{"o":"esc","s":[],"r":[[]]},{"o":"fault"}'),
    ("C20", '{"o":"accept","f":"lexi","t":"derived","ok":1}', '{"o":"accept","f":"lexi","t":"derived","ok":0}'),
    ("C22", '{"o":"mem","op":"ext","t":"f64","calls":4,"grow":0}', '{"o":"mem","op":"ext","t":"f64","calls":4,"grow":32}'),
    ("C22", '{"o":"env","a":[67],"b":[67]}', '{"o":"env","a":[67],"b":[68]}'),
    ("C23", '{"o":"rnew","d":1,"c":"int","s":[45,49],"k":"ret"},{"o":"rcopy","d":2,"s":1},{"o":"rget","d":2,"t":"u8","x":[255]}', '{"o":"rnew","d":1,"c":"int","s":[45,49],"k":"ret"},{"o":"rcopy","d":2,"s":1},{"o":"rget","d":2,"t":"u8","x":[1]}'),
    ("C26", '{"o":"views","t":"f64","v":[0,0,0,16376],"json":[49,46,53],"gj":[49,46,53]}', '{"o":"views","t":"f64","v":[0,0,0,16376],"json":[49,46,53],"gj":[48,49,46,53]}'),
    ("C26", '{"o":"views","t":"u8","v":[7],"json":[55],"gj":[55]}', '{"o":"views","t":"u8","v":[7],"json":[43,55],"gj":[55]}'),
    ("C27", '{"o":"oom","full":[0,[1]],"old":[],"r":[[2,[]],[0,[1]]],"after":[0,[1]],"grow":0}', '{"o":"oom","full":[0,[1]],"old":[],"r":[[2,[]],[0,[2]]],"after":[0,[1]],"grow":0}'),
    ("C29", '{"o":"cost","len":[131072,1048576],"us":[900,9000],"mem":[800000,6300000]}', '{"o":"cost","len":[131072,1048576],"us":[90000,5600000],"mem":[800000,6300000]}'),
    ("C16", '{"o":"ref","e":{"o":"esc","s":[1],"r":[[92,1]]}},{"o":"again","i":1,"comma":0,"e":{"o":"esc","s":[1],"r":[[92,1]]}}', '{"o":"ref","e":{"o":"esc","s":[1],"r":[[92,1]]}},{"o":"again","i":1,"comma":0,"e":{"o":"esc","s":[1],"r":[[92,2]]}}'),
]


def run():
    n = 0
    for p, good, bad in CASES:
        b, _ = core.validate([[good]], p) if "},{" not in good else core.validate([split(good)], p)
        if b:
            print("self-test: %s rejects a correct event %s" % (p, good))
            return 2
        b, _ = core.validate([split(bad)], p)
        if not b:
            print("self-test: %s accepts a corrupted event %s" % (p, bad))
            return 2
        n += 2
    print("self-test passed: %d traces judged as expected" % n)
    return 0


def split(s):
    return [json.dumps(e, separators=(",", ":")) for e in json.loads("[" + s + "]")]
