package h

// Code generated by tools/gen_gotext.py from /repo's locales. DO NOT EDIT.

// translations of the message files of the repository: language, key, text
var gotext = [][3]string{
	{"zh-CN", "fail to insert object", "插入JSONObject失败"},
	{"zh-CN", "not a valid JSONDict", "不是JSONDict"},
	{"zh-CN", "not a valid JSONArray", "不是JSONArray"},
	{"zh-CN", "not a valid number", "无数的整数"},
	{"zh-CN", "not a valid float", "无数的浮点数"},
	{"zh-CN", "not a valid boolean", "无效的布尔值"},
	{"zh-CN", "not a valid string", "无效的字符串"},
	{"zh-CN", "key not found", "找不到指定键值"},
	{"zh-CN", "unsupported operation", "不支持的操作"},
	{"zh-CN", "out of key range", "找不到指定键序列"},
	{"zh-CN", "out of index range", "JSON数组下标越界"},
	{"zh-CN", "invalid char", "无数的字符"},
	{"zh-CN", "invalid hex", "无效的16进制串"},
	{"zh-CN", "invalid 4 byte rune", "无效的rune"},
	{"zh-CN", "unmarshal type mismatch", "unmarshal类型不匹配"},
	{"zh-CN", "unmarshal array length mismatch", "unmarshal时Go数组与JSON array长度不匹配"},
	{"zh-CN", "do not known how to deserialize json into this interface type", ""},
	{"zh-CN", "map key must be string", "JSON字典的键类型必须是string"},
	{"zh-CN", "missing input field", "找不到输入字段"},
	{"zh-CN", "nil input field", "输入字段值为null"},
	{"zh-CN", "Cannot find JSONDict key", "找不到JSONDict键"},
	{"zh-CN", "Illformat", "无效的格式"},
}
