"""Frozen copies of the code lists, so that a change to them shows."""
LANGS = set("""
aa ab ae af ak am an ar as av ay az ba be bg bh bi bm bn bo br bs ca ce ch
co cr cs cu cv cy da de dv dz ee el en eo es et eu fa ff fi fj fo fr fy ga
gd gl gn gu gv ha he hi ho hr ht hu hy hz ia id ie ig ii ik io is it iu ja
jv ka kg ki kj kk kl km kn ko kr ks ku kv kw ky la lb lg li ln lo lt lu lv
mg mh mi mk ml mn mo mr ms mt my na nb nd ne ng nl nn no nr nv ny oc oj om
or os pa pi pl ps pt qu rm rn ro ru rw sa sc sd se sg si sk sl sm sn so sq
sr ss st su sv sw ta te tg th ti tk tl tn to tr ts tt tw ty ug uk ur uz ve
vi vo wa wo xh yi yo za zh zu
""".split())
CURRENCIES = set("""
AED AFN ALL AMD ANG AOA ARS AUD AWG AZN BAM BBD BDT BGN BHD BIF BMD BND BOB
BOV BRL BSD BTN BWP BYR BZD CAD CDF CHE CHF CHW CLF CLP CNY COP COU CRC CUP
CVE CYP CZK DJF DKK DOP DZD EEK EGP ERN ETB EUR FJD FKP GBP GEL GHC GIP GMD
GNF GTQ GYD HKD HNL HRK HTG HUF IDR ILS INR IQD IRR ISK JMD JOD JPY KES KGS
KHR KMF KPW KRW KWD KYD KZT LAK LBP LKR LRD LSL LTL LVL LYD MAD MDL MGA MKD
MMK MNT MOP MRO MTL MUR MVR MWK MXN MXV MYR MZN NAD NGN NIO NOK NPR NZD OMR
PAB PEN PGK PHP PKR PLN PYG QAR ROL RON RSD RUB RWF SAR SBD SCR SDD SDG SEK
SGD SHP SKK SLL SOS SRD STD SYP SZL THB TJS TMM TND TOP TRY TTD TWD TZS UAH
UGX USD USN USS UYU UZS VEB VND VUV WST XAF XAG XAU XBA XBB XBC XBD XCD XDR
XFO XFU XOF XPD XPF XPT XTS XXX YER ZAR ZMK ZWD
""".split())
