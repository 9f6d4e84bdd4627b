"""C13: control strings (gridnav, traffic, plat2d): the four coders are the contracts proved in u_runlen and u_base64."""
import re
from tr import Unit, F, Loop
import u_runlen, u_base64
PRE = u_runlen.PRE + u_base64.PRE[:u_base64.PRE.index('predicate filled')]
STATE = 'val rs : ref (map int int)\nval rn : ref int\nval bs : ref (map int int)\nval bn : ref int\nval cs : ref (map int int)\nval cn : ref int\n'
SMALL = '0 <= @data.len < 2147483648'
CODED = 'b64 @enc.dat @enc.len !rs !rn /\\ rl !rs 0 !rn !bs 0 !bn /\\ 0 <= !rn < 1073741824 /\\ 0 <= !bn /\\ (forall j:int. -128 <= !rs[j] < 128) /\\ !bn < 2147483648 /\\ forall i:int. 0 <= i < !bn -> !bs[i] = %s'
def unit(name, f):
    return Unit('controls-' + name, f, prelude=PRE, state=STATE, contracts=[
    F('runlenenc', ['data'], mode='val', req=[SMALL], ens=['rl result.dat 0 result.len @data.dat 0 @data.len /\\ 0 <= result.len <= 2 * @data.len'], writes=[]),
    F('base64enc', ['data'], mode='val', req=[SMALL], ens=['b64 result.dat result.len @data.dat @data.len /\\ 0 <= result.len'], writes=[]),
    F('base64dec', ['data'], mode='val', req=[SMALL, ('an encoding', 'b64 @data.dat @data.len !rs !rn /\\ 0 <= !rn'), ('bytes', 'forall j:int. -128 <= !rs[j] < 128')],
      ens=['result.len = !rn /\\ forall j:int. 0 <= j < !rn -> result.dat[j] = !rs[j]'], writes=[]),
    F('runlendec', ['data'], mode='val', req=[SMALL, ('an encoding', 'rl @data.dat 0 @data.len !bs 0 !bn /\\ 0 <= !bn')],
      ens=['result.len = !bn /\\ forall j:int. 0 <= j < !bn -> result.dat[j] = !bs[j]'], writes=[]),
    F('controlstr', ['controls'], req=['0 <= @controls.len < 100000000', ('small operator numbers', 'forall i:int. 0 <= i < @controls.len -> 0 <= @controls.dat[i] <= 127')],
      ens=[('encodes the controls', 'b64 result.dat result.len !rs !rn /\\ rl !rs 0 !rn !bs 0 !bn /\\ !bn = @controls.len /\\ forall i:int. 0 <= i < !bn -> !bs[i] = @controls.dat[i]')],
      loops={0: Loop(['0 <= @i <= @controls.len /\\ @bytes.len = @i', 'forall j:int. 0 <= j < @i -> @bytes.dat[j] = @controls.dat[j]'], '@controls.len - @i')},
      hooks={'after:runlenenc#0': 'rs := it (pure { @callres.dat }); rn := it (pure { @callres.len }); bs := it (pure { @bytes.dat }); bn := it (pure { @bytes.len });'}),
    F('controlvec', ['enc'], req=['0 <= @enc.len < 2147483648', ('an encoding', CODED % '!cs[i] /\\ 0 <= !cs[i] <= 127')],
      ens=[('gives the controls back', 'result.len = !bn /\\ forall i:int. 0 <= i < !bn -> result.dat[i] = !cs[i]')],
      loops={0: Loop(['0 <= @i <= @bytes.len /\\ @v.len = @i', 'forall j:int. 0 <= j < @i -> @v.dat[j] = !cs[j]'], '@bytes.len - @i')},
      hooks={'after:base64dec#0': 'rl_frame !rs (it (pure { @callres.dat })) 0 !rn !bs !bs 0 !bn;'}),
    ])
UNITS = [unit('gridnav', '/repo/gridnav/gridnav.cc'), unit('traffic', '/repo/traffic/traffic.cc'), unit('plat2d', '/repo/plat2d/plat2d.cc')]
