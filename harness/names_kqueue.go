package notify

var znames = []zname{
	{NoteDelete, "notify.NoteDelete"},
	{NoteWrite, "notify.NoteWrite"},
	{NoteExtend, "notify.NoteExtend"},
	{NoteAttrib, "notify.NoteAttrib"},
	{NoteLink, "notify.NoteLink"},
	{NoteRename, "notify.NoteRename"},
	{NoteRevoke, "notify.NoteRevoke"},
}
