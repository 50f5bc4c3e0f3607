"""The HTML vocabulary the Taggle parser is documented to know (HTML 4.01 plus the IE and NS4 extensions TagSoup has), as data:
content models, natural parents, typed and defaulted attributes. HTML 4.01 entities come from Python's own table."""

# element: (what it contains, what it is a member of, flags, natural parent)
ELEMENTS = {
    '<pcdata>': ('', 'PCDATA', '', 'body'),
    '<root>': ('ROOT', '', '', ''),
    'a': ('PCDATA NOLINK BLOCK', 'INLINE', '', 'body'),
    'abbr': ('PCDATA INLINE', 'INLINE NOLINK', 'RESTART', 'body'),
    'acronym': ('PCDATA INLINE', 'INLINE NOLINK', 'RESTART', 'body'),
    'address': ('PCDATA INLINE P', 'BLOCK', '', 'body'),
    'applet': ('PCDATA PARAM INLINE BLOCK', 'INLINE NOLINK', '', 'body'),
    'area': ('', 'AREA', '', 'map'),
    'b': ('PCDATA INLINE', 'INLINE NOLINK', 'RESTART', 'body'),
    'base': ('', 'HEAD', '', 'head'),
    'basefont': ('', 'INLINE NOLINK', '', 'body'),
    'bdo': ('PCDATA INLINE', 'INLINE NOLINK', 'RESTART', 'body'),
    'bgsound': ('', 'HEAD', '', 'head'),
    'big': ('PCDATA INLINE', 'INLINE NOLINK', 'RESTART', 'body'),
    'blink': ('PCDATA INLINE', 'INLINE NOLINK', 'RESTART', 'body'),
    'blockquote': ('PCDATA INLINE BLOCK', 'BLOCK', '', 'body'),
    'body': ('PCDATA INLINE BLOCK', 'HTML BODY', '', 'html'),
    'br': ('', 'INLINE NOLINK', '', 'body'),
    'button': ('PCDATA INLINE BLOCK', 'INLINE NOLINK', '', 'form'),
    'canvas': ('PCDATA INLINE', 'INLINE NOLINK', '', 'body'),
    'caption': ('PCDATA INLINE', 'TABULAR', '', 'table'),
    'center': ('PCDATA INLINE BLOCK', 'BLOCK', '', 'body'),
    'cite': ('PCDATA INLINE', 'INLINE NOLINK', 'RESTART', 'body'),
    'code': ('PCDATA INLINE', 'INLINE NOLINK', 'RESTART', 'body'),
    'col': ('', 'COL TABULAR', '', 'table'),
    'colgroup': ('COL', 'TABULAR', '', 'table'),
    'comment': ('PCDATA INLINE', 'INLINE NOLINK', '', 'body'),
    'dd': ('PCDATA INLINE BLOCK', 'DEF', '', 'dl'),
    'del': ('PCDATA INLINE BLOCK', 'INLINE BLOCKINLINE BLOCK', 'RESTART', 'body'),
    'dfn': ('PCDATA INLINE', 'INLINE NOLINK', 'RESTART', 'body'),
    'dir': ('LI', 'BLOCK', '', 'body'),
    'div': ('PCDATA INLINE BLOCK', 'BLOCK', '', 'body'),
    'dl': ('DEF', 'BLOCK', '', 'body'),
    'dt': ('PCDATA INLINE', 'DEF', '', 'dl'),
    'em': ('PCDATA INLINE', 'INLINE NOLINK', 'RESTART', 'body'),
    'fieldset': ('PCDATA LEGEND INLINE BLOCK', 'BLOCK', '', 'form'),
    'font': ('PCDATA INLINE', 'INLINE NOLINK', '', 'body'),
    'form': ('PCDATA INLINE NOLINK BLOCK TR CELL', 'BLOCK FORM', 'NOFORCE', 'body'),
    'frame': ('', 'FRAME', '', 'frameset'),
    'frameset': ('FRAME', 'FRAME HTML', '', 'html'),
    'h1': ('PCDATA INLINE', 'BLOCK', '', 'body'),
    'h2': ('PCDATA INLINE', 'BLOCK', '', 'body'),
    'h3': ('PCDATA INLINE', 'BLOCK', '', 'body'),
    'h4': ('PCDATA INLINE', 'BLOCK', '', 'body'),
    'h5': ('PCDATA INLINE', 'BLOCK', '', 'body'),
    'h6': ('PCDATA INLINE', 'BLOCK', '', 'body'),
    'head': ('HEAD', 'HTML', '', 'html'),
    'hr': ('', 'BLOCK', '', 'body'),
    'html': ('HTML', 'ROOT', '', '<root>'),
    'i': ('PCDATA INLINE', 'INLINE NOLINK', 'RESTART', 'body'),
    'iframe': ('PCDATA INLINE BLOCK', 'INLINE NOLINK', '', 'body'),
    'img': ('', 'INLINE NOLINK', '', 'body'),
    'input': ('', 'INLINE NOLINK', '', 'form'),
    'ins': ('PCDATA INLINE BLOCK', 'INLINE BLOCK', 'RESTART', 'body'),
    'isindex': ('', 'HEAD', '', 'head'),
    'kbd': ('PCDATA INLINE', 'INLINE NOLINK', 'RESTART', 'body'),
    'label': ('PCDATA INLINE', 'INLINE NOLINK', '', 'form'),
    'legend': ('PCDATA INLINE', 'LEGEND', '', 'fieldset'),
    'li': ('PCDATA INLINE BLOCK', 'LI', '', 'ul'),
    'link': ('', 'HEAD INLINE', '', 'head'),
    'listing': ('PCDATA INLINE', 'BLOCK', '', 'body'),
    'map': ('BLOCK AREA', 'INLINE', '', 'body'),
    'marquee': ('PCDATA INLINE', 'INLINE NOLINK', '', 'body'),
    'menu': ('LI', 'BLOCK', '', 'body'),
    'meta': ('', 'HEAD', '', 'head'),
    'nobr': ('PCDATA INLINE', 'INLINE NOLINK', '', 'body'),
    'noframes': ('BODY BLOCK INLINE', 'BLOCK HTML FRAME', '', 'html'),
    'noscript': ('PCDATA INLINE BLOCK', 'BLOCK', '', 'body'),
    'object': ('PCDATA PARAM INLINE BLOCK', 'HEAD INLINE NOLINK', '', 'body'),
    'ol': ('LI', 'BLOCK', '', 'body'),
    'optgroup': ('OPTIONS', 'OPTIONS', '', 'select'),
    'option': ('PCDATA', 'OPTION OPTIONS', '', 'select'),
    'p': ('PCDATA INLINE TABLE', 'BLOCK P', '', 'body'),
    'param': ('', 'PARAM', '', 'object'),
    'pre': ('PCDATA INLINE', 'BLOCK', '', 'body'),
    'q': ('PCDATA INLINE', 'INLINE NOLINK', 'RESTART', 'body'),
    'rb': ('PCDATA INLINE', 'INLINE NOLINK', 'RESTART', 'body'),
    'rbc': ('PCDATA INLINE', 'INLINE NOLINK', 'RESTART', 'body'),
    'rp': ('PCDATA INLINE', 'INLINE NOLINK', 'RESTART', 'body'),
    'rt': ('PCDATA INLINE', 'INLINE NOLINK', 'RESTART', 'body'),
    'rtc': ('PCDATA INLINE', 'INLINE NOLINK', 'RESTART', 'body'),
    'ruby': ('PCDATA INLINE', 'INLINE NOLINK', 'RESTART', 'body'),
    's': ('PCDATA INLINE', 'INLINE NOLINK', 'RESTART', 'body'),
    'samp': ('PCDATA INLINE', 'INLINE NOLINK', 'RESTART', 'body'),
    'script': ('PCDATA', 'ANY-ROOT', 'CDATA', 'html'),
    'select': ('OPTIONS', 'INLINE', '', 'form'),
    'small': ('PCDATA INLINE', 'INLINE NOLINK', 'RESTART', 'body'),
    'span': ('PCDATA INLINE', 'INLINE NOLINK', '', 'body'),
    'strike': ('PCDATA INLINE', 'INLINE NOLINK', 'RESTART', 'body'),
    'strong': ('PCDATA INLINE', 'INLINE NOLINK', 'RESTART', 'body'),
    'style': ('PCDATA', 'HEAD INLINE', 'CDATA', 'head'),
    'sub': ('PCDATA INLINE', 'INLINE NOLINK', 'RESTART', 'body'),
    'sup': ('PCDATA INLINE', 'INLINE NOLINK', 'RESTART', 'body'),
    'table': ('FORM TABULAR', 'BLOCK TABLE', 'NOFORCE', 'body'),
    'tbody': ('TR', 'TABULAR', '', 'table'),
    'td': ('PCDATA INLINE BLOCK', 'CELL', '', 'tr'),
    'textarea': ('PCDATA', 'INLINE', '', 'form'),
    'tfoot': ('TR FORM CELL', 'TABULAR', '', 'table'),
    'th': ('PCDATA INLINE BLOCK', 'CELL', '', 'tr'),
    'thead': ('TR FORM CELL', 'TABULAR', '', 'table'),
    'title': ('PCDATA', 'HEAD', '', 'head'),
    'tr': ('FORM CELL', 'TR TABULAR', '', 'tbody'),
    'tt': ('PCDATA INLINE', 'INLINE NOLINK', 'RESTART', 'body'),
    'u': ('PCDATA INLINE', 'INLINE NOLINK', 'RESTART', 'body'),
    'ul': ('LI', 'BLOCK', '', 'body'),
    'var': ('PCDATA INLINE', 'INLINE NOLINK', '', 'body'),
    'wbr': ('', 'INLINE NOLINK', '', 'body'),
    'xmp': ('PCDATA INLINE', 'BLOCK', '', 'body'),
}

# the typed or defaulted attributes: element -> [(attribute, type, default)]
ATTRS = {
    'a': [('hreflang', 'NMTOKEN', ''), ('shape', 'CDATA', 'rect'), ('tabindex', 'NMTOKEN', ''), ('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'abbr': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'acronym': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'address': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'applet': [('align', 'NMTOKEN', ''), ('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'area': [('nohref', 'BOOLEAN', ''), ('shape', 'CDATA', 'rect'), ('tabindex', 'NMTOKEN', ''), ('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'b': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'base': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'basefont': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'bdo': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'bgsound': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'big': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'blink': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'blockquote': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'body': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'br': [('clear', 'CDATA', 'none'), ('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'button': [('disabled', 'BOOLEAN', ''), ('tabindex', 'NMTOKEN', ''), ('type', 'CDATA', 'submit'), ('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'canvas': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'caption': [('align', 'NMTOKEN', ''), ('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'center': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'cite': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'code': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'col': [('align', 'NMTOKEN', ''), ('span', 'CDATA', '1'), ('valign', 'NMTOKEN', ''), ('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'colgroup': [('align', 'NMTOKEN', ''), ('span', 'CDATA', '1'), ('valign', 'NMTOKEN', ''), ('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'comment': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'dd': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'del': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'dfn': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'dir': [('compact', 'BOOLEAN', ''), ('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'div': [('align', 'NMTOKEN', ''), ('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'dl': [('compact', 'BOOLEAN', ''), ('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'dt': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'em': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'fieldset': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'font': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'form': [('enctype', 'CDATA', 'application/x-www-form-urlencoded'), ('method', 'CDATA', 'get'), ('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'frame': [('frameborder', 'CDATA', '1'), ('noresize', 'BOOLEAN', ''), ('scrolling', 'CDATA', 'auto'), ('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'frameset': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'h1': [('align', 'NMTOKEN', ''), ('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'h2': [('align', 'NMTOKEN', ''), ('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'h3': [('align', 'NMTOKEN', ''), ('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'h4': [('align', 'NMTOKEN', ''), ('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'h5': [('align', 'NMTOKEN', ''), ('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'h6': [('align', 'NMTOKEN', ''), ('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'head': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'hr': [('align', 'NMTOKEN', ''), ('noshade', 'BOOLEAN', ''), ('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'html': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'i': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'iframe': [('align', 'NMTOKEN', ''), ('frameborder', 'CDATA', '1'), ('scrolling', 'CDATA', 'auto'), ('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'img': [('align', 'NMTOKEN', ''), ('ismap', 'BOOLEAN', ''), ('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'input': [('align', 'NMTOKEN', ''), ('checked', 'BOOLEAN', ''), ('disabled', 'BOOLEAN', ''), ('ismap', 'BOOLEAN', ''), ('maxlength', 'NMTOKEN', ''), ('readonly', 'BOOLEAN', ''), ('tabindex', 'NMTOKEN', ''), ('type', 'CDATA', 'text'), ('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'ins': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'isindex': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'kbd': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'label': [('for', 'IDREF', ''), ('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'legend': [('align', 'NMTOKEN', ''), ('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'li': [('value', 'NMTOKEN', ''), ('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'link': [('hreflang', 'NMTOKEN', ''), ('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'listing': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'map': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'marquee': [('width', 'NMTOKEN', ''), ('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'menu': [('compact', 'BOOLEAN', ''), ('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'meta': [('http-equiv', 'NMTOKEN', ''), ('name', 'NMTOKEN', ''), ('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'nobr': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'noframes': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'noscript': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'object': [('align', 'NMTOKEN', ''), ('declare', 'BOOLEAN', ''), ('tabindex', 'NMTOKEN', ''), ('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'ol': [('compact', 'BOOLEAN', ''), ('start', 'NMTOKEN', ''), ('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'optgroup': [('disabled', 'BOOLEAN', ''), ('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'option': [('disabled', 'BOOLEAN', ''), ('selected', 'BOOLEAN', ''), ('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'p': [('align', 'NMTOKEN', ''), ('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'param': [('valuetype', 'CDATA', 'data'), ('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'pre': [('width', 'NMTOKEN', ''), ('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'q': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'rb': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'rbc': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'rp': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'rt': [('rbspan', 'CDATA', '1'), ('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'rtc': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'ruby': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    's': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'samp': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'script': [('defer', 'BOOLEAN', ''), ('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'select': [('disabled', 'BOOLEAN', ''), ('multiple', 'BOOLEAN', ''), ('size', 'NMTOKEN', ''), ('tabindex', 'NMTOKEN', ''), ('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'small': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'span': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'strike': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'strong': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'style': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'sub': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'sup': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'table': [('align', 'NMTOKEN', ''), ('frame', 'NMTOKEN', ''), ('rules', 'NMTOKEN', ''), ('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'tbody': [('align', 'NMTOKEN', ''), ('valign', 'NMTOKEN', ''), ('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'td': [('align', 'NMTOKEN', ''), ('colspan', 'CDATA', '1'), ('headers', 'IDREFS', ''), ('nowrap', 'BOOLEAN', ''), ('rowspan', 'CDATA', '1'), ('scope', 'NMTOKEN', ''), ('valign', 'NMTOKEN', ''), ('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'textarea': [('cols', 'NMTOKEN', ''), ('disabled', 'BOOLEAN', ''), ('readonly', 'BOOLEAN', ''), ('rows', 'NMTOKEN', ''), ('tabindex', 'NMTOKEN', ''), ('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'tfoot': [('align', 'NMTOKEN', ''), ('valign', 'NMTOKEN', ''), ('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'th': [('align', 'NMTOKEN', ''), ('colspan', 'CDATA', '1'), ('headers', 'IDREFS', ''), ('nowrap', 'BOOLEAN', ''), ('rowspan', 'CDATA', '1'), ('scope', 'NMTOKEN', ''), ('valign', 'NMTOKEN', ''), ('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'thead': [('align', 'NMTOKEN', ''), ('valign', 'NMTOKEN', ''), ('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'title': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'tr': [('align', 'NMTOKEN', ''), ('valign', 'NMTOKEN', ''), ('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'tt': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'u': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'ul': [('compact', 'BOOLEAN', ''), ('type', 'NMTOKEN', ''), ('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'var': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'wbr': [('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
    'xmp': [('width', 'NMTOKEN', ''), ('class', 'NMTOKEN', ''), ('dir', 'NMTOKEN', ''), ('id', 'ID', ''), ('lang', 'NMTOKEN', '')],
}

# entities known besides those of HTML 4.01
MORE_ENTITIES = {'Cedilla': 184,
 'DiacriticalAcute': 180,
 'DiacriticalGrave': 96,
 'Dot': 168,
 'DoubleDot': 168,
 'Hat': 94,
 'NewLine': 10,
 'NonBreakingSpace': 160,
 'OverBar': 175,
 'PlusMinus': 177,
 'Tab': 9,
 'VerticalLine': 124,
 'apos': 39,
 'ast': 42,
 'bsol': 92,
 'centerdot': 183,
 'circledR': 174,
 'colon': 58,
 'comma': 44,
 'commat': 64,
 'die': 168,
 'div': 247,
 'dollar': 36,
 'equals': 61,
 'excl': 33,
 'grave': 96,
 'half': 189,
 'lbrace': 123,
 'lbrack': 91,
 'lcub': 123,
 'lowbar': 95,
 'lpar': 40,
 'lsqb': 91,
 'num': 35,
 'percnt': 37,
 'period': 46,
 'plus': 43,
 'pm': 177,
 'quest': 63,
 'rbrace': 125,
 'rbrack': 93,
 'rcub': 125,
 'rpar': 41,
 'rsqb': 93,
 'semi': 59,
 'sol': 47,
 'strns': 175,
 'verbar': 124,
 'vert': 124}
