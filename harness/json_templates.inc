"\"\001\001\"]",
"t\001\001\001\001",
"tru\001\001",
"\001rue",
"fals\001\001",
"f\001l\001e",
"[\001\001,\001\001]",
"{\"a\"\001\001\001",
"{\001\"a\":\001}",
"\"\\\001\001\001\001\001\001\"",
"\"\\u\001\001\001\001\001",
"-\001\001\001",
"0\001\001",
"\001\001\001\001[1]",
"[[[[[[\001\001]]]\001]]]",
"[1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,\001\001,18,19,20\001",
"{\"a\":1,\"b\":2,\001\"c\":\001,\"d\":[{}\001]}",
"[\"\005a\004\001\",\001true\001]",
"[true\001\001,false]",
"[\001]\001",
"{\"\001\":\001\001}",
"[\"\001\\\001\001\"\001",
"  \001\"a\" \001 x",
"[[],{}\001\001",
"\001\001\001true]",
"[-\001,\001]",
"{\"a\":tr\001e,\"a\":\001}",
"[1\001\001\001]",
"{\"a\\n\":[true,false,-12,\"x\\u00e9\\\"\"], \"b\" : {} }",
"[[1,\"\\\\\"],\t{\"k\":\"v\"}\n]",
"\"\\u12aF\001\"",
"[true,\001alse]",
"[\"\001\001\001\001\"]",
"\"aaaaaaaaaaaaaa\001\001\001bbbbbbbbbbbbbbbbbbbb\"",
"\"\\u\001\001\001\001\"",
"\"\\\001\\\001\\\001\"",
"\"\001\\u00\003\003\001\"",
"\"\001\\\001\001\\\001\001\"",
"\"\005x\037\001\001\005y\013\"",
"[\"\001\",\"\001\001\",\"\001\001\001\"]",
"\"\\u\003\003\003\003\\u\003\003\003\003\"",
"\"\001\001\001\001\001\"",
"\"\\\\\001\\\"\001\\/\001\\b\\f\\n\\r\\t\001\"",
"\"\005a\311\005b\311\005c\063\001\001\"",
"{\"\001\001\001\":1}",
"{\"\\u\003\003\003\003\":true}",
"{\"a\\\001\001\":\"\001\"}",
"{\"aaaaaaaaaaaaaaaaaaaaaaaaa\001\001\":[\"\001\"]}",
"[{\"\001\":{\"\001\\n\":\"\001\"}}]",
"{\"\005k\311\001\":\"\001\"}",
"\002",
"-\002",
"[\002\002\002]",
"-\002\002\002\002",
"1234567890123456789\002",
"[\002234567890123456789012\002,-9\002]",
"9223372036854775\002\002\002",
"-1844674407370955161\002",
"[340282366920938463463374607431768211\002\002\002]",
"5789604461865809771178549250434395392663499233282028201972879200395656481996\002",
"-578960446186580977117854925043439539266349923328202820197287920039565648199\002\002",
"\00211579208923731619542357098500868790785326998466564056403945758400791312963\002",
"-\002345678901234567890123456789012345678901234567890123456789012345678901234\002",
"0\001",
"-0\001",
"-\001",
"[0,-0,-\002,\002]",
"10000000000000000000000000000000000000\002000000000000000000000\002",
"{\"a\":-\002\002,\"b\":\002}",
"100000000000000000\00200000000000000000\002",
"[\001,\001]",
"[1\001\0012\001]",
"[[1\001[2]\001\001]",
"[1,true,\"s\",[2,[3]],{\"k\":[\002]}\001\001]",
"[0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,\002\001]",
"[[[[[[[[[[[[\002],2],3],4],5],6],7],8],9],10],11]\001]",
"[[],[[]\001,{}\001\001",
"{\"\004\":1,\"\004\":2}",
"{\"\004\":1,\"b\":2,\"\004\":3}",
"{\"\004a\":1,\"b\004\":\002,\"ba\":true}",
"{\"a\":{\"\004\":1,\"b\":2},\"\004\":{\"c\":3}\001\001",
"{\"k0\":0,\"k1\":1,\"k2\":2,\"k3\":3,\"k4\":4,\"k5\":5,\"k6\":6,\"k7\":7,\"k8\":8,\"k9\":9,\"k10\":10,\"k11\":11,\"k12\":12,\"k13\":13,\"k14\":14,\"k15\":15,\"k16\":16,\"k17\":17,\"k18\":18,\"k19\":19,\"k20\":20,\"k21\":21,\"k22\":22,\"k23\":23,\"k24\":24,\"k25\":25,\"k26\":26,\"k27\":27,\"k28\":28,\"k29\":29,\"k\002\":\002,\"k1\002\":true}",
"[{\"a\":1},{\"\004\":2,\"a\":3},{\"a\":[],\"\004\":[1]}]",
"{\"\":1,\"\004\":{},\"\004\004\":[]}",
"{\"a\":\001,\"\004\":\001\001",
"{\"a\":0,\"b\":1,\"c\":2,\"d\":3,\"e\":4,\"f\":5,\"g\":6,\"h\":7,\"i\":8,\"j\":9,\"k\":10,\"l\":11,\"m\":12,\"n\":13,\"o\":14,\"p\":15,\"q\":16,\"r\":17,\"s\":18,\"t\":19,\"u\":20,\"v\":21,\"w\":22,\"x\":23,\"\004\":[\002],\"\004\":false}",
"{\"\005z\311\004\":1,\"\005z\311\004\":2}",
"[\001\001]\001",
"[\"\001\001\"]",
"{\"a\":\001}",
"tru\001",
" \001\001",
"\005[\051\001\001",
"\005[\025\001\005]\025\001",
"[\005{\002",
"[\0051\361\001,\"\005z\311\001",
"[null,-1.5e+3,\"\001\",\001]",
"{\"\001\":\001,\"b\":[1,{\"b\":2}]}",
"[\"[,]{}:\",[1,[2,3]],{\"a\":[4]},true]",
"{\"k\\\001\":\"b\",\"a\" : {\"k\":1}, \"z\":null}",
"\"\001\\\001\001\"",
"[\001\001]",
"{}",
"[]",
" [ \001 , \001 ] ",
"{\"\004\":1,\"\004\":0.5}",
"{\"b\":1,\"\004b\":\"\",\"bb\":0.5}",
"{\"\\u00\003\003\":false,\"a\":[]}",
"[\"\",\"\001\001\",\"\\\\\"]",
"-\001",
"tru\001",
"[0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,\001]",
"{\"a\":{\"a\":[\"\004\"]},\"\004\":\"a\"}",
"\"\005x\025\001\"",
"[[[[\001]]],[[]],\001]",
"\n{\t\"\001\"\n:\r[\001]}",
