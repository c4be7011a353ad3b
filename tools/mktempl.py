#!/usr/bin/env python3
"""Writes harness/json_templates.inc and .json. Markers: \\1 any byte, \\2 digit, \\3 hex digit, \\4 lower-case letter, \\5cNNN; repeat c NNN*10 times."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T, names = [], {}


def conv(s):
    o, i = "", 0
    while i < len(s):
        c = s[i]
        if c == "\\" and s[i + 1] in "1234":
            o += "\\00" + s[i + 1]; i += 2
        elif c == "\\" and s[i + 1] == "5":
            m = re.match(r"\\5(.)(\d+);", s[i:])
            o += "\\005%s\\%03o" % (m.group(1), int(m.group(2)) + 1); i += m.end()
        elif c == "\\":
            o += s[i:i + 2]; i += 2
        else:
            o += c; i += 1
    return o


def n(name, *xs):
    for x in xs:
        names.setdefault(name, []).append(len(T))
        T.append(conv(x))


n('verdict', r'\"\1\1\"]', r't\1\1\1\1', r'tru\1\1', r'\1rue', r'fals\1\1', r'f\1l\1e', r'[\1\1,\1\1]', r'{\"a\"\1\1\1', r'{\1\"a\":\1}', r'\"\\\1\1\1\1\1\1\"', r'\"\\u\1\1\1\1\1', r'-\1\1\1', r'0\1\1', r'\1\1\1\1[1]',
  r'[[[[[[\1\1]]]\1]]]', r'[1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,\1\1,18,19,20\1', r'{\"a\":1,\"b\":2,\1\"c\":\1,\"d\":[{}\1]}', r'[\"\5a3;\1\",\1true\1]', r'[true\1\1,false]', r'[\1]\1', r'{\"\1\":\1\1}', r'[\"\1\\\1\1\"\1', r'  \1\"a\" \1 x', r'[[],{}\1\1', r'\1\1\1true]', r'[-\1,\1]', r'{\"a\":tr\1e,\"a\":\1}', r'[1\1\1\1]')
n('cut', r'{\"a\\n\":[true,false,-12,\"x\\u00e9\\\"\"], \"b\" : {} }', r'[[1,\"\\\\\"],\t{\"k\":\"v\"}\n]', r'\"\\u12aF\1\"', r'[true,\1alse]')
n('str', r'[\"\1\1\1\1\"]', r'\"aaaaaaaaaaaaaa\1\1\1bbbbbbbbbbbbbbbbbbbb\"', r'\"\\u\1\1\1\1\"', r'\"\\\1\\\1\\\1\"', r'\"\1\\u00\3\3\1\"', r'\"\1\\\1\1\\\1\1\"', r'\"\5x30;\1\1\5y10;\"', r'[\"\1\",\"\1\1\",\"\1\1\1\"]', r'\"\\u\3\3\3\3\\u\3\3\3\3\"', r'\"\1\1\1\1\1\"', r'\"\\\\\1\\\"\1\\/\1\\b\\f\\n\\r\\t\1\"', r'\"\5a200;\5b200;\5c50;\1\1\"')
n('key', r'{\"\1\1\1\":1}', r'{\"\\u\3\3\3\3\":true}', r'{\"a\\\1\1\":\"\1\"}', r'{\"aaaaaaaaaaaaaaaaaaaaaaaaa\1\1\":[\"\1\"]}', r'[{\"\1\":{\"\1\\n\":\"\1\"}}]', r'{\"\5k200;\1\":\"\1\"}')
n('int', r'\2', r'-\2', r'[\2\2\2]', r'-\2\2\2\2', r'1234567890123456789\2', r'[\2234567890123456789012\2,-9\2]', r'9223372036854775\2\2\2', r'-1844674407370955161\2', r'[340282366920938463463374607431768211\2\2\2]',
  r'5789604461865809771178549250434395392663499233282028201972879200395656481996\2', r'-578960446186580977117854925043439539266349923328202820197287920039565648199\2\2', r'\211579208923731619542357098500868790785326998466564056403945758400791312963\2', r'-\2345678901234567890123456789012345678901234567890123456789012345678901234\2', r'0\1', r'-0\1', r'-\1', r'[0,-0,-\2,\2]', r'10000000000000000000000000000000000000\2000000000000000000000\2', r'{\"a\":-\2\2,\"b\":\2}', r'100000000000000000\200000000000000000\2')
n('arr', r'[\1,\1]', r'[1\1\12\1]', r'[[1\1[2]\1\1]', r'[1,true,\"s\",[2,[3]],{\"k\":[\2]}\1\1]', '[' + ','.join(map(str, range(40))) + r',\2\1]', r'[[[[[[[[[[[[\2],2],3],4],5],6],7],8],9],10],11]\1]', r'[[],[[]\1,{}\1\1')
n('obj', r'{\"\4\":1,\"\4\":2}', r'{\"\4\":1,\"b\":2,\"\4\":3}', r'{\"\4a\":1,\"b\4\":\2,\"ba\":true}', r'{\"a\":{\"\4\":1,\"b\":2},\"\4\":{\"c\":3}\1\1',
  '{' + ','.join(r'\"k%d\":%d' % (i, i) for i in range(30)) + r',\"k\2\":\2,\"k1\2\":true}', r'[{\"a\":1},{\"\4\":2,\"a\":3},{\"a\":[],\"\4\":[1]}]', r'{\"\":1,\"\4\":{},\"\4\4\":[]}', r'{\"a\":\1,\"\4\":\1\1',
  r'{' + ','.join(r'\"%s\":%d' % (chr(97 + i), i) for i in range(24)) + r',\"\4\":[\2],\"\4\":false}', r'{\"\5z200;\4\":1,\"\5z200;\4\":2}')
n('verdict2', r'[\1\1]\1', r'[\"\1\1\"]', r'{\"a\":\1}', r'tru\1', r' \1\1')
n('deep', r'\5[40;\1\1', r'\5[20;\1\5]20;\1', r'[\5{1;', r'[\51240;\1,\"\5z200;\1')
n('slice', r'[null,-1.5e+3,\"\1\",\1]', r'{\"\1\":\1,\"b\":[1,{\"b\":2}]}', r'[\"[,]{}:\",[1,[2,3]],{\"a\":[4]},true]', r'{\"k\\\1\":\"b\",\"a\" : {\"k\":1}, \"z\":null}', r'\"\1\\\1\1\"', r'[\1\1]', r'{}', r'[]', r' [ \1 , \1 ] ', r'{\"\4\":1,\"\4\":0.5}', r'{\"b\":1,\"\4b\":\"\",\"bb\":0.5}', r'{\"\\u00\3\3\":false,\"a\":[]}', r'[\"\",\"\1\1\",\"\\\\\"]', r'-\1', r'tru\1', '[' + ','.join(map(str, range(30))) + r',\1]',
  r'{\"a\":{\"a\":[\"\4\"]},\"\4\":\"a\"}', r'\"\5x20;\1\"', r'[[[[\1]]],[[]],\1]', r'\n{\t\"\1\"\n:\r[\1]}')
if __name__ == "__main__":
    open(V + '/harness/json_templates.inc', 'w').write('\n'.join('"%s",' % x for x in T) + '\n')
    open(V + '/harness/json_templates.json', 'w').write(json.dumps(names))
    print(len(T), names)
