// Explicit uses of the library's templates, so that clang instantiates their bodies.  Contains no logic of its own.
namespace CGraph {
template class USmallVector<GElement *>;
template class USerialUniqueArray<std::string>;
template class ULru<int, std::string, 4>;
template class GMultiCondition<GMultiConditionType::SERIAL>;
template class GMultiCondition<GMultiConditionType::PARALLEL>;
struct VParam1 : public GParam {};
struct VParam2 : public GParam {};
template CStatus GParamManager::create<VParam1, 0>(const std::string&, CBool);
template CStatus GParamManager::create<VParam2, 0>(const std::string&, CBool);
template VParam1* GParamManager::get<VParam1, 0>(const std::string&);
template VParam2* GParamManager::get<VParam2, 0>(const std::string&);
struct VStage : public GStage {};
template CStatus GStageManager::create<VStage, GStageDefaultParam, 0, 0>(const std::string&, CInt, GStageDefaultParam*);
struct VEvent : public GEvent { CVoid trigger(GEventParamPtr) override {} };
template CStatus GEventManager::createWithParam<VEvent, GEventDefaultParam, 0, 0>(const std::string&, GEventDefaultParam*);
template CVoid UAtomicQueue<UTask>::waitPop(UTask&);
template std::unique_ptr<UTask> UAtomicQueue<UTask>::tryPop();
template CBool UWorkStealingQueue<UTask>::tryPush(UTask&&);
template CVoid UWorkStealingQueue<std::string>::push(const std::vector<std::string>&);
template std::future<void> UThreadPool::commitWithPriority<std::function<void()>>(const std::function<void()>&, int);
struct VMsg : public GMessageParam {};
template class UAtomicRingBufferQueue<GMessageParam, 64>;
template class UAtomicRingBufferQueue<VMsg, 64>;
template CVoid UAtomicRingBufferQueue<GMessageParam, 64>::push<VMsg>(const std::shared_ptr<VMsg>&, URingBufferPushStrategy);
template CStatus UAtomicRingBufferQueue<VMsg, 64>::waitPopWithTimeout<VMsg>(std::shared_ptr<VMsg>&, CMSec);
template class GMessageManager<GMessageParam, 0>;
template class GMessage<GMessageParam, 64, 0>;
template class GMessage<VMsg, 64, 0>;
template CStatus GMessageManager<GMessageParam, 0>::createTopic<VMsg, 0>(const std::string&, CUInt);
template CStatus GMessageManager<GMessageParam, 0>::sendTopicValue<VMsg, 0>(const std::string&, const std::shared_ptr<VMsg>&, GMessagePushStrategy);
template CStatus GMessageManager<GMessageParam, 0>::recvTopicValue<VMsg, 0>(const std::string&, std::shared_ptr<VMsg>&, CMSec);
template CIndex GMessageManager<GMessageParam, 0>::bindTopic<VMsg, 0>(const std::string&, CUInt);
template CStatus GMessageManager<GMessageParam, 0>::pubTopicValue<VMsg, 0>(const std::string&, const std::shared_ptr<VMsg>&, GMessagePushStrategy);
template CStatus GMessageManager<GMessageParam, 0>::subTopicValue<VMsg, 0>(CIndex, std::shared_ptr<VMsg>&, CMSec);
}
