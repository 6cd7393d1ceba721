package notify

var znames = []zname{
	{InAccess, "notify.InAccess"},
	{InModify, "notify.InModify"},
	{InAttrib, "notify.InAttrib"},
	{InCloseWrite, "notify.InCloseWrite"},
	{InCloseNowrite, "notify.InCloseNowrite"},
	{InOpen, "notify.InOpen"},
	{InMovedFrom, "notify.InMovedFrom"},
	{InMovedTo, "notify.InMovedTo"},
	{InCreate, "notify.InCreate"},
	{InDelete, "notify.InDelete"},
	{InDeleteSelf, "notify.InDeleteSelf"},
	{InMoveSelf, "notify.InMoveSelf"},
}
