"""prints 'deviates' when the listed known finding is present in the real code"""
import sys, os, types
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
v = types.ModuleType('cmdis._version'); v.version = v.__version__ = '0'
sys.modules['cmdis._version'] = v
from cmdis import disasm, model

class D(object):
    def __init__(self): self.r = {}
    def read_register(self, n): return self.r.get(n, 0)
    def write_register(self, n, v): self.r[n] = v & 0xffffffff
    def read_memory(self, a, size=32): return 0
    def write_memory(self, a, v, size=32): pass

def run(code, regs, pc=0x1000):
    d = D(); d.r.update(regs); d.r[15] = pc
    cpu = model.CpuModel(); cpu.delegate = d
    disasm.decoder.decode(bytearray(code), pc).execute(cpu)
    return d.r

def pc_add():      # add r0, pc
    return run((0x78, 0x44), {0: 1})[0] != 0x1000 + 4 + 1
def pc_mov():      # mov r0, pc
    return run((0x78, 0x46), {})[0] != 0x1000 + 4
def pc_bx():       # bx pc
    return run((0x78, 0x47), {})[15] != 0x1000 + 4
try: print('deviates' if {'pc-operand-add': pc_add, 'pc-operand-mov': pc_mov, 'pc-operand-bx': pc_bx}[sys.argv[1]]() else 'as specified')
except Exception as e: print('error', type(e).__name__)
