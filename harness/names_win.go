package notify

var znames = []zname{
	{FileNotifyChangeFileName, "notify.FileNotifyChangeFileName"},
	{FileNotifyChangeDirName, "notify.FileNotifyChangeDirName"},
	{FileNotifyChangeAttributes, "notify.FileNotifyChangeAttributes"},
	{FileNotifyChangeSize, "notify.FileNotifyChangeSize"},
	{FileNotifyChangeLastWrite, "notify.FileNotifyChangeLastWrite"},
	{FileNotifyChangeLastAccess, "notify.FileNotifyChangeLastAccess"},
	{FileNotifyChangeCreation, "notify.FileNotifyChangeCreation"},
	{FileNotifyChangeSecurity, "notify.FileNotifyChangeSecurity"},
	{FileActionAdded, "notify.FileActionAdded"},
	{FileActionRemoved, "notify.FileActionRemoved"},
	{FileActionModified, "notify.FileActionModified"},
	{FileActionRenamedOldName, "notify.FileActionRenamedOldName"},
	{FileActionRenamedNewName, "notify.FileActionRenamedNewName"},
}
