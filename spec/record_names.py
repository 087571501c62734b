"""Names of the record types of the SESAM interface files."""
NAMES = '''
ACFD ADDATA AMATRIX AMDACCL AMDDAMP AMDDISP AMDFREQ AMDLOAD AMDMASS AMDSTIFF AMDVELO BEDRAG1 BEISTE BELFIX
BELLAX BELLO2 BELOAD1 BEMASS1 BEUSLO BEUVLO BEWAKIN BEWALO1 BGRAV BLDEP BNACCLO BNBCD BNDISPL BNDOF BNINCO
BNLOAD BNLOAX BNMASS BNTEMP BNTRCOS BNWALO BQDP BRIGAC BRIGDI BRIGVE BSELL DATE GBARM GBEAMG GBOX GCHAN GCHANR
GCOORD GCROINT GDOBO GECC GECCEN GELINT GELMNT1 GELMNT2 GELREF1 GELSTRP GELTH GIORH GIORHR GLMASS GLSEC GLSECR
GNODE GPIPE GSEPSPEC GSETMEMB GSLAYER GSLPLATE GSLSTIFF GTONP GUNIVEC GUSYI HIERARCH HSUPSTAT HSUPTRAN IDENT
IEND IRECSIZE MAXDMP MAXSPR MCNT MGDAMP MGLDAMP MGLMASS MGMASS MGSPRNG MISOAL MISOEML MISOHL MISOHNL MISOPL
MISOSEL MISTEL MORSMEL MORSSEL MORSSOL MSHGLSP MTEMP MTENONL MTRMEL MTRSEL MTRSOL RBLODCMB RDELNFOR RDFORCES
RDIELCOR RDMLFACT RDNODBOC RDNODREA RDNODRES RDPOINTS RDRESCMB RDRESREF RDSERIES RDSTRAIN RDSTRESS RDTRANS
RSUMLOAD RSUMMASS RSUMREAC RSUPTRAN RVABSCIS RVELNFOR RVFORCES RVNODACC RVNODDIS RVNODREA RVNODVEL RVORDINA
RVSTRAIN RVSTRESS SCONCEPT SCONMESH SCONPLIS SPROCODE SPROECCE SPROHYDR SPROMATR SPROORIE SPROPILE SPROSEGM
SPROSELE SPROSOIL TDBODNAM TDLOAD TDMATER TDRESREF TDRSNAM TDSCATTER TDSCONC TDSECT TDSERIES TDSETNAM TDSUPNAM
TELEMENT TEXT TNODE TSLAYER W1EXFORC W1MATRIX W1MOTION W1PANPRE W1SFORCE W2EXFDIF W2EXFSUM W2FLUDIF W2FLUSUM
W2HDRIFT W2MDRIFT WBODCON WBODY WDRESREF WFKPOINT WFLUIDKN WGLOBDEF WGRESPON WINPUT WSCATTER WSECTION WSURFACE
'''.split()
