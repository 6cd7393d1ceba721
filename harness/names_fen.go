package notify

var znames = []zname{
	{FileAccess, "notify.FileAccess"},
	{FileModified, "notify.FileModified"},
	{FileAttrib, "notify.FileAttrib"},
	{FileDelete, "notify.FileDelete"},
	{FileRenameTo, "notify.FileRenameTo"},
	{FileRenameFrom, "notify.FileRenameFrom"},
	{FileTrunc, "notify.FileTrunc"},
	{FileNoFollow, "notify.FileNoFollow"},
	{Unmounted, "notify.Unmounted"},
	{MountedOver, "notify.MountedOver"},
}
