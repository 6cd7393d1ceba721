package notify

var znames = []zname{
	{FSEventsMustScanSubDirs, "notify.FSEventsMustScanSubDirs"},
	{FSEventsUserDropped, "notify.FSEventsUserDropped"},
	{FSEventsKernelDropped, "notify.FSEventsKernelDropped"},
	{FSEventsEventIdsWrapped, "notify.FSEventsEventIdsWrapped"},
	{FSEventsHistoryDone, "notify.FSEventsHistoryDone"},
	{FSEventsRootChanged, "notify.FSEventsRootChanged"},
	{FSEventsMount, "notify.FSEventsMount"},
	{FSEventsUnmount, "notify.FSEventsUnmount"},
	{FSEventsInodeMetaMod, "notify.FSEventsInodeMetaMod"},
	{FSEventsFinderInfoMod, "notify.FSEventsFinderInfoMod"},
	{FSEventsChangeOwner, "notify.FSEventsChangeOwner"},
	{FSEventsXattrMod, "notify.FSEventsXattrMod"},
	{FSEventsIsFile, "notify.FSEventsIsFile"},
	{FSEventsIsDir, "notify.FSEventsIsDir"},
	{FSEventsIsSymlink, "notify.FSEventsIsSymlink"},
}
