"""Contracts for percent_encoding.h (property C03, used by C04 and C11)."""
TUS = ['percent_encoding']
IMPORTS = []
SPECS = ['percent']
CFG = {}
MODE = ('mode_valid', '0 <= mode && mode <= 2')
CONTRACTS = {
    'IsReservedChar': dict(qual='IsReservedChar', params=['c'], requires=[], ensures=[('reserved_set', 'r == is_reserved(c)')]),
    'ascii_isxdigit': dict(qual='ascii_isxdigit', params=['c'], requires=[], ensures=[('hex_digits', 'r == is_hex(c)')]),
    'hex_digit_to_int': dict(qual='hex_digit_to_int', params=['c'], requires=[], ensures=[('hex_value', 'is_hex(c) ==> r == hex_val(c)'), ('range', '0 <= r && r < 16')]),
    'GetEscapedChar': dict(qual='GetEscapedChar', params=['src', 'pos', 'mode', 'plus', 'out'],
        requires=[('position_in_range', 'pos < src.len()'), MODE, ('out_not_null', 'out_nn')],
        ensures=[('consumed', 'r == dec_len(src, pos, mode, plus)'), ('decoded', 'r > 0 ==> @out == dec_char(src, pos, mode, plus)'), ('untouched', 'r <= 0 ==> @out == out')],
        hints=dict(entry=['lemma_bit_or_low();'])),
    'IsUrlEscapedString': dict(qual='IsUrlEscapedString', nparams=3, params=['part', 'mode', 'plus'],
        requires=[MODE], ensures=[('escaped_iff', 'r == escaped_from(part, 0, mode, plus)')],
        loops=['forall|j_: int| 0 <= j_ < $i:pos ==> #[trigger] dec_len(part, j_, mode, plus) <= 0', '0 <= $i:pos <= part.len()'],
        hints=dict(loop=['lemma_dec_step(part, $i:pos, mode, plus);'])),
    'IsUrlEscapedString1': dict(qual='IsUrlEscapedString', nparams=1, params=['part'],
        requires=[], ensures=[('escaped_iff', 'r == escaped_from(part, 0, 2, false)')]),
    'UrlUnescapeString': dict(qual='UrlUnescapeString', nparams=3, params=['part', 'mode', 'plus'],
        requires=[MODE], ensures=[('decoded', 'r =~= decode(part, mode, plus)')],
        loops=['0 <= $i:pos <= part.len()', '0 <= $q:pos <= $i:pos', '$u:acc.len() == part.len()',
               '$u:acc.subrange(0, $q:pos) + dec_from(part, $i:pos, mode, plus) =~= decode(part, mode, plus)',
               '$u:acc + dec_from(part, $i:pos, mode, plus) =~= decode(part, mode, plus)'],
        hints=dict(entry=['lemma_dec_id(part, 0, mode, plus);'], loop=['lemma_dec_step(part, $i:pos, mode, plus);'])),
    'UrlUnescapeString1': dict(qual='UrlUnescapeString', nparams=1, params=['part'],
        requires=[], ensures=[('decoded', 'r =~= decode(part, 2, false)')]),
}
