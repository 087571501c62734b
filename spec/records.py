"""The record types of the SESAM interface file, written down independently of the parser.

One line per record type (or family):  NAMES : columns | arrays
columns in file order, int32 unless `name:f` (float32), `name:f12` / `name:f4x4` (with shape), `name:c6` (complex64),
`name:s64` (string);  arrays `name:i`, `name:f3` (items of shape (3,)), `name:s72`.
"""

TABLE = '''
HIERARCH : nfield ihref iselty indsel islevl itref ihpref nsub | ihsref:i
DATE TEXT : type subtype nrecs nbyte | recs:s72
IDENT : slevel seltyp selmod
TDMATER TDSECT TDSETNAM TDSUPNAM TSLAYER TDSCONC TDLOAD TDRESREF TDBODNAM TDRSNAM TDSCATTER : nfield idno codnam codtxt name:s64 | text:s64
GNODE : nodex nodeno ndof odof
GCOORD : nodeno xcoord:f ycoord:f zcoord:f
GELMNT1 : elnox elno eltyp eltyad | nodin:i
GELMNT2 : subno slevel stype addno t:f12 nnod | nod:i
GELREF1 : elno matno addno intno mintno strano streno strepono geono fixno eccno transno | geono:i fixno:i eccno:i transno:i
GECCEN : eccno ex:f ey:f ez:f
GUNIVEC : transno unix:f uniy:f uniz:f
GELTH : geono th:f nint
GBEAMG : geono void:f area:f ix:f iy:f iz:f iyz:f wxmin:f wymin:f wzmin:f shary:f sharz:f shceny:f shcenz:f sy:f sz:f
GBARM : geono hz:f bt:f bb:f sfy:f sfz:f nloby nlobz
GBOX : geono hz:f ty:f t_b:f tt:f by:f sfy:f sfz:f nloby nlobz
GCHAN : geono hz:f ty:f by:f tz:f sfy:f sfz:f empty k nloby nlobz
GCHANR : geono hz:f ty:f by:f tz:f sfy:f sfz:f empty k r:f nloby nlobz
GDOBO : geono hz:f ty:f by:f tt:f t_b:f sfy:f sfz:f nloby nlobz
GIORH : geono hz:f ty:f bt:f tt:f bb:f t_b:f sfy:f sfz:f nlobyt nlobyb nlobz
GIORHR : geono hz:f ty:f bt:f tt:f bb:f t_b:f sfy:f sfz:f rt:f rb:f nlobyt nlobyb nlobz
GLSEC : geono hz:f ty:f by:f tz:f sfy:f sfz:f k:f nloby nlobz
GLSECR : geono hz:f ty:f by:f tz:f sfy:f sfz:f k:f r:f nloby nlobz
GPIPE : geono di:f dy:f t:f sfy:f sfz:f ncir nrad
GUSYI : geono hz:f ty:f bt:f b1:f tt:f bb:f b2:f t_b:f sfy:f sfz:f nlobyt nlobyb nlobz
GSETMEMB : nfield isref index istype isorig | irmemb:i
MISOSEL : matno young:f poiss:f rho:f damp:f alpha:f
SCONCEPT : nfield ircon scontype sconrole irparent npart njoin | irpart:i irjoin:i
SCONMESH : nfield ircon numrep typrep nferep | irferep:i
BNBCD : nodeno ndof | fix:i
BLDEP : nodeno cnod ndof ndep | deps:f3
BEUSLO : llc lotyp complx layer elno ndof intno side | rload:f iload:f
BGRAV : llc empty1:f empty2:f opt gx:f gy:f gz:f
BRIGAC : llc empty1:f complx empty2:f xcoord:f ycoord:f zcoord:f empty3:f raccl1:f raccl2:f raccl3:f raccl4:f raccl5:f raccl6:f iaccl1:f iaccl2:f iaccl3:f iaccl4:f iaccl5:f iaccl6:f
RSUPTRAN HSUPTRAN : nfield itref t:f4x4
RDFORCES RDNODRES RDSTRAIN RDSTRESS RDELNFOR : nfield ir lenrec | icomp:i
RDPOINTS : nfield ispalt iielno icoref ieltyp nsp ijkdim nsptra nlay | respoint:f4 xform:f3x3
RDIELCOR : nfield icoref igrid | gamma:f beta:f alpha:f layers:f2
RDRESREF : nfield ires irno ieres icalty icompl numtyp | reftyps:f3
RBLODCMB : nfield ires icompl nblc | blcs:f3
RDRESCMB : nfield ires icompl nblc | rcs:f3
RVNODACC : nfield ires iinod irdva itrans | acc:f
RVNODDIS : nfield ires iinod irdva itrans | dis:f
RVNODVEL : nfield ires iinod irdva itrans | vel:f
RVFORCES : nfield ires iielno ispalt ir | force:f
RVSTRAIN : nfield ires iielno ispalt ir | strain:f
RVSTRESS : nfield ires iielno ispalt ir | stress:f
WBODCON : nfield ibcond ibody numcon | refcond:f3
WDRESREF : nfield iwres nresrf numtyp | dir:f2 freq:f2 time:f2
WGLOBDEF : nfield g:f ro:f idepth depth:f
WBODY : nfield ibcond clenb:f bmass:f wsarea:f wparea:f vol:f xcg:f ycg:f zcg:f xcb:f ycb:f zcb:f xrb:f yrb:f zrb:f t:f4x4
W1MATRIX : nfield imatrx ibconi ibconj iwres imtyp hmat:f6x6
W1EXFORC W1MOTION W2EXFDIF W2EXFSUM : nfield ibcond iwres icompl data:c6
W1SFORCE : nfield ibcond isect iwres icompl data:c6
W2HDRIFT : nfield ibcond iwres shfor:f3
W2MDRIFT : nfield ibcond iwres smfor:f6
WFKPOINT : nfield ifkpnt fkpnt:f3
WFLUIDKN : nfield iwres ifkpnt icompl p:c v:c3
WSECTION : nfield ibody isect isecty secusr p1:f3 p2:f3 p3:f3
WSURFACE : nfield iwres indxwr nnode icompl icompx icompy icompz | zelev:c4
WINPUT : nfield ibcond t:f4x4
W1PANPRE : nfield ibcond iwres ippan isymm1 icompl p:c ipan isymm2
'''

# not stored in the HDF5 file
UNSTORED = ('IRECSIZE', 'IEND')


def column(text):
    name, _, t = text.partition(':')
    if not t:
        return name, 'int32', ()
    if t[0] == 's':
        return name, 'str%s' % t[1:], ()
    typ = {'i': 'int32', 'f': 'float32', 'c': 'complex64'}[t[0]]
    return name, typ, tuple(int(x) for x in t[1:].split('x')) if t[1:] else ()


def load():
    """{record name: ([(column, type, shape)], [(array, type, shape)])}"""
    out = {}
    for l in TABLE.strip().splitlines():
        names, _, rest = l.partition(' : ')
        cols, _, arrs = rest.partition(' | ')
        for n in names.split():
            out[n] = ([column(c) for c in cols.split()], [column(a) for a in arrs.split()])
    return out


RECORDS = load()
